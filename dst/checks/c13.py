"""Observed lists, sets and dicts against their builtin twins."""
import copy as copymod

from .. import core, seams
from ..core import Check
from ..sim import Injector, attempt, gen_faults, outcome, require, wchoice

KINDS = dict(xs='list', ns='list', ps='list', ts='list', us='list', ys='set', ws='set', ds='dict', es='dict')
MISSING = object()
FIRES = 25


class Rejected(Exception):
    pass


def kind_of(v):
    for k in (list, set, dict):
        if isinstance(v, k):
            return k.__name__
    return None


# -- the domain of every property, stated independently of the library --------

def c_int(v, lo=0, hi=9):
    if isinstance(v, str) or not isinstance(v, (int, float)) or v != int(v) or not lo <= v <= hi:
        raise Rejected()
    return int(v)


def c_upper(v):
    if not isinstance(v, str):
        raise Rejected()
    return v.upper()


def c_choice(v):
    if v in ('A', 'x', 'y', 'a', 'X', 'Y'):
        return 'A'
    if v in ('B', 'z', 'b', 'Z'):
        return 'B'
    raise Rejected()


class Side(object):
    """Scripted callbacks, shared by the library and the model"""

    def __init__(self, plan, st):
        self.plan = plan
        self.inj = Injector(st)
        self.log = []
        self.fires = 0
        self.counts = {}

    def start(self, op):
        self.log, self.fires, self.counts = [], 0, {}
        self.inj.arm(op['i'], op.get('faults'))

    def fire(self, lid, spec, name, prev, value, mode):
        """Returns the substituted value or MISSING"""
        self.fires += 1
        if self.fires > FIRES:
            return MISSING
        self.log.append([lid, name, show(prev), show(value), mode])
        self.inj.cross('a %s listener' % mode)
        n = self.counts.get(lid, 0)
        self.counts[lid] = n + 1
        act = spec['acts'][n] if n < len(spec['acts']) else None
        if act is None:
            return MISSING
        if act['k'] == 'revert':
            return prev if mode == 'validate' and kind_of(self.data(prev)) else MISSING
        try:
            self.nested(act)
        except BaseException as err:
            if not act['swallow'] or not isinstance(err, Exception):
                raise
            self.log.append([lid, 'swallowed', outcome(self.as_real(err))])
        return MISSING

    def as_real(self, err):
        return seams.load().ValidationError('x') if isinstance(err, Rejected) else err

    def generator(self, items):
        for x in items:
            self.inj.cross('an iterable')
            yield x

    def keyfunc(self, name):
        def func(v):
            self.inj.cross('a sort key')
            return -v if name == 'neg' else str(v)
        return func

    def arg(self, a):
        if isinstance(a, dict):
            if 'h' in a:
                return self.handle(a['h'])
            if 'gen' in a:
                return self.generator(self.lit(a['gen']))
            if 'key' in a:
                return self.keyfunc(a['key'])
            if 'slice' in a:
                return slice(*a['slice'])
            if 'keys' in a:
                return dict.fromkeys(self.lit(a['keys'])).keys()
            if 'd' in a:
                return dict((self.lit(k), self.lit(v)) for k, v in a['d'])
            if 's' in a:
                return set(self.lit(x) for x in a['s'])
            if 'fs' in a:
                return frozenset(self.lit(x) for x in a['fs'])
            if 't' in a:
                return tuple(self.lit(x) for x in a['t'])
        return self.lit(a)

    def lit(self, a):
        if isinstance(a, dict) and 'P' in a:
            return self.pts[a['P']]
        if isinstance(a, list):
            return [self.lit(x) for x in a]
        return a

    def run(self, target, m, args, kw):
        """Apply one method or operator; target is a container of this side"""
        args = [self.arg(a) for a in args]
        kw = dict((k, self.arg(v)) for k, v in kw.items())
        if m in OPERATORS:
            return OPERATORS[m](target, *args)
        return getattr(target, m)(*args, **kw)


def show(v):
    """Contents without types"""
    if isinstance(v, MC):
        v = v.data
    if isinstance(v, (list, tuple)):
        return ['l'] + [show(x) for x in v]
    if isinstance(v, (set, frozenset)):
        # which of two equal elements a set keeps is not specified
        return ['s'] + sorted((show(int(x) if isinstance(x, float) and x == int(x) else x) for x in v), key=repr)
    if isinstance(v, dict):
        return ['d'] + [[show(k), show(x)] for k, x in v.items()]
    if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
        return ['v'] + sorted((show(x) for x in v), key=repr)
    if v is None or v is NotImplemented or isinstance(v, (int, float, str)):
        return repr(v)
    if hasattr(v, '_pt'):
        return 'P%d' % v._pt
    if type(v).__name__ == 'Sentinel':
        return '<undefined>'
    return '<%s>' % type(v).__name__


def ior(a, b):
    a |= b
    return a


def iand(a, b):
    a &= b
    return a


def isub(a, b):
    a -= b
    return a


def ixor(a, b):
    a ^= b
    return a


def iadd(a, b):
    a += b
    return a


def imul(a, b):
    a *= b
    return a


def sameset(v):
    return v


IOPS = {'iadd': iadd, 'imul': imul, 'ior': ior, 'iand': iand, 'isub': isub, 'ixor': ixor}
OPERATORS = {
    'add': lambda a, b: a + b, 'radd': lambda a, b: b + a, 'mul': lambda a, n: a * n, 'rmul': lambda a, n: n * a,
    'or': lambda a, b: a | b, 'ror': lambda a, b: b | a, 'and': lambda a, b: a & b, 'rand': lambda a, b: b & a,
    'sub': lambda a, b: a - b, 'rsub': lambda a, b: b - a, 'xor': lambda a, b: a ^ b, 'rxor': lambda a, b: b ^ a,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'ge': lambda a, b: a >= b,
    'in': lambda a, b: b in a, 'len': len, 'iter': lambda a: list(a) if kind_of(a) != 'set' else set(iter(a)),
    'sorted': sorted, 'bool': bool, 'copycopy': copymod.copy,
    'builtin': lambda a: {'list': list, 'set': set, 'dict': dict}[kind_of(a)](a),
    'reversed': lambda a: list(reversed(a)),
}
OPERATORS.update(IOPS)
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', '__setitem__', '__delitem__',
            'discard', 'update', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'popitem', 'setdefault'}
FRESH = {'copy', 'add', 'mul', 'rmul', 'or', 'ror', 'and', 'rand', 'sub', 'rsub', 'xor', 'rxor', 'copycopy', 'union',
         'intersection', 'difference', 'symmetric_difference'}


def is_mutator(kind, m):
    # 'add' is the + operator; set.add is 'sadd'
    return m in MUTATORS or m == 'sadd'


class OrderedSet(set):
    """A set that iterates in a given order"""

    def __iter__(self):
        return iter(self.order)


def in_order(data, like):
    """The iteration order of a set depends on its history: where the order may matter the model follows the real one"""
    if kind_of(data) != 'set' or kind_of(like) != 'set' or set(like) != data or list(like) == list(data):
        return data
    data = OrderedSet(data)
    data.order = list(like)
    return data


class MC(object):
    """A container of the model"""

    def __init__(self, data):
        self.data = data


class Real(Side):
    def __init__(self, plan, st, pts):
        Side.__init__(self, plan, st)
        self.pts = pts
        p = self.p = seams.load()
        pt = type(pts[0])

        def ints():
            return p.Integer('i', min=0, max=9)
        ns = dict(_REGISTRY={}, xs=p.List('x', ints(), observe_mutations=True),
                  ns=p.List('n', p.String('s', change_case='upper'), observe_mutations=True, required=False),
                  ps=p.List('p', p.Instance('i', pt), observe_mutations=True, default=list),
                  ts=p.List('t', ints(), observe_mutations=True, coerce=True),
                  us=p.Union('u', [p.List('l', ints(), observe_mutations=True), p.String('s')]),
                  ys=p.Set('y', ints(), observe_mutations=True, default=set),
                  ws=p.Set('w', p.StringChoice('c', {'A': ['x', 'y'], 'B': ['z']}), observe_mutations=True),
                  ds=p.Dictionary('d', key_prop=p.String('k', change_case='upper'), value_prop=ints(),
                                  observe_mutations=True),
                  es=p.Dictionary('e', key_prop=p.Integer('k'), value_prop=p.List('l', ints()),
                                  observe_mutations=True, default=dict))
        cls = type(p.HasProperties)('Box', (p.HasProperties,), ns)
        self.objs = [cls(), cls()]
        self.handles = []
        self.calls = []

    def handle(self, k):
        return self.handles[k % len(self.handles)] if self.handles else []

    def data(self, v):
        return v

    def current(self, o, name):
        return getattr(self.objs[o], name)

    def assign(self, o, name, v):
        setattr(self.objs[o], name, v)

    def delete(self, o, name):
        delattr(self.objs[o], name)

    def reset(self, o, name):
        self.objs[o]._reset(name)

    def iop(self, o, name, m, arg):
        a = self.arg(arg)
        obj = self.objs[o]
        v = getattr(obj, name)
        v = IOPS[m](v, a)
        setattr(obj, name, v)

    def apply(self, c, m, args, kw):
        rec = dict(kept=False, popped=None)
        self.calls.append(rec)
        fires = self.fires
        held = [(o, n) for o in (0, 1) for n in KINDS if self.objs[o]._backend.get(n) is c] if is_mutator(None, m) else []
        if m == 'pop' and held and isinstance(c, set) and c:
            rec['popped'] = next(iter(type(c)(c)))  # in case the call does not return
        if m == 'sadd':
            out = c.add(*[self.arg(a) for a in args])
        else:
            out = self.run(c, m, args, kw)
        rec['popped'] = out
        rec['kept'] = bool(held) and fires == self.fires and all(self.objs[o]._backend.get(n) is c for o, n in held)
        return out

    def nested(self, act):
        if act['k'] == 'assign':
            return self.assign(act['o'], act['p'], self.arg(act['v']))
        c = self.current(act['o'], act['p'])
        if c is None or kind_of(c) is None:
            return None
        return self.apply(c, act['m'], act['args'], act['kw'])

    def listen(self, lid, spec):
        def func(inst, ch):
            sub = self.fire(lid, spec, ch['name'], ch['previous'], ch['value'], ch['mode'])
            if sub is not MISSING:
                ch['value'] = sub
        obj = self.objs[spec['o']]
        if spec['mode'] == 'validate':
            self.p.validator(obj, spec['p'], func)
        else:
            self.p.observer(obj, spec['p'], func, change_only=spec['mode'] == 'change')


class Model(Side):
    def __init__(self, plan, st, pts, real):
        Side.__init__(self, plan, st)
        self.pts, self.real = pts, real
        self.cur = {}
        for o in (0, 1):
            for name, v in (('ps', []), ('ys', set()), ('es', {})):
                self.cur[o, name] = MC(v)
        self.handles = []
        self.cbs = {}
        self.ncalls = 0

    def handle(self, k):
        if not self.handles:
            return []
        return in_order(self.handles[k % len(self.handles)].data, self.real.handles[k % len(self.handles)])

    def data(self, v):
        return v.data if isinstance(v, MC) else v

    def current(self, o, name):
        return self.cur.get((o, name))

    # -- domains -------------------------------------------------------------
    def coerce(self, name, v):
        kind = KINDS[name]
        if name == 'us' and isinstance(v, str):
            return v
        if name == 'ts' and kind_of(v) != 'list':
            v = list(v) if isinstance(v, (set, tuple)) else [v]
        if kind_of(v) != kind:
            raise Rejected()
        if name in ('xs', 'ts', 'us'):
            return [c_int(x) for x in v]
        if name == 'ns':
            return [c_upper(x) for x in v]
        if name == 'ps':
            if not all(hasattr(x, '_pt') for x in v):
                raise Rejected()
            return list(v)
        if name == 'ys':
            return set(c_int(x) for x in v)
        if name == 'ws':
            return set(c_choice(x) for x in v)
        if name == 'ds':
            return dict([(c_upper(k), c_int(x)) for k, x in v.items()])
        return dict([(c_int(k, -99, 99), self.inner(x)) for k, x in v.items()])

    @staticmethod
    def inner(x):
        if not isinstance(x, list):
            raise Rejected()
        return [c_int(y) for y in x]

    def equal(self, name, a, b):
        if name == 'ps':
            return [x._pt % 3 for x in a] == [x._pt % 3 for x in b]
        if name == 'us' and isinstance(a, str) != isinstance(b, str):
            return False
        return a == b

    # -- one assignment ---------------------------------------------------------
    def assign(self, o, name, v):
        if isinstance(v, MC):
            v = v.data
        v = self.coerce(name, v)
        self.store(o, name, v if isinstance(v, str) else MC(v))

    def store(self, o, name, new):
        prev = self.cur.get((o, name), MISSING)
        value = self.notify(o, name, prev, new, 'validate')
        if value is None:
            self.cur.pop((o, name), None)
        else:
            self.cur[o, name] = value
        if prev is MISSING and value is None:
            pass
        elif prev is MISSING or value is None or not self.equal(name, self.data(prev), self.data(value)):
            self.notify(o, name, prev, value, 'observe_change')
        self.notify(o, name, prev, value, 'observe_set')

    def notify(self, o, name, prev, value, mode):
        for lid, spec in self.cbs.get((o, name, mode), ()):
            sub = self.fire(lid, spec, name, UNDEF if prev is MISSING else prev, UNDEF if value is None else value, mode)
            if sub is not MISSING:
                value = sub
        return value

    def delete(self, o, name):
        self.store(o, name, None)

    def reset(self, o, name):
        default = dict(ps=[], ys=set(), es={})
        if name not in default:
            return self.store(o, name, None)
        return self.assign(o, name, default[name])

    def iop(self, o, name, m, arg):
        a = self.arg(arg)
        c = self.cur.get((o, name))
        v = self.data(c)
        v = IOPS[m](copymod.copy(v), a)
        self.assign(o, name, v)

    def apply(self, c, m, args, kw):
        n = self.ncalls
        self.ncalls += 1
        rec = self.real.calls[n] if n < len(self.real.calls) else dict(kept=False, popped=None)
        held = [k for k, v in self.cur.items() if v is c]
        mutates = is_mutator(None, m)
        data = c.data
        if held and (mutates or m in IOPS):
            data = copymod.copy(c.data)
        if m == 'sadd':
            out = data.add(*[self.arg(a) for a in args])
        elif m == 'pop' and isinstance(data, set) and data:
            require(rec['popped'] in data, 'result', 'pop() gave %s which is no element', show(rec['popped']))
            data.remove(rec['popped'])
            out = rec['popped']
        else:
            out = self.run(data, m, args, kw)
        if held and mutates:
            (o, name), = held
            if rec['kept'] and show(data) == show(c.data):
                return out      # nothing changed: an assignment may be left out
            self.assign(o, name, data)
        if m in IOPS and not held and out is data:
            return c
        return out

    def nested(self, act):
        if act['k'] == 'assign':
            return self.assign(act['o'], act['p'], self.arg(act['v']))
        c = self.current(act['o'], act['p'])
        if c is None or kind_of(self.data(c)) is None:
            return None
        return self.apply(c, act['m'], act['args'], act['kw'])

    def listen(self, lid, spec):
        mode = dict(validate='validate', change='observe_change', set='observe_set')[spec['mode']]
        self.cbs.setdefault((spec['o'], spec['p'], mode), []).append((lid, spec))


class _Undef(object):
    pass


_Undef.__name__ = 'Sentinel'
UNDEF = _Undef()


class Machine(object):
    def __init__(self, plan, st):
        p = seams.load()
        pt_cls = type(p.HasProperties)('Pt', (p.HasProperties,), dict(_REGISTRY={}, x=p.Integer('x'), _pt=None))
        pts = []
        for i in range(4):
            pt = pt_cls(x=i % 3)
            pt._pt = i
            pts.append(pt)
        self.plan, self.st = plan, st
        self.real = Real(plan, st, pts)
        self.model = Model(plan, core.Stats(), pts, self.real)

    def call(self, side, op):
        a = op['a']
        if a == 'assign':
            return side.assign(op['o'], op['p'], side.arg(op['v']))
        if a == 'delete':
            return side.delete(op['o'], op['p'])
        if a == 'reset':
            return side.reset(op['o'], op['p'])
        if a == 'iop':
            return side.iop(op['o'], op['p'], op['m'], op['arg'])
        if a == 'listen':
            return side.listen(op['i'], op)
        if a == 'move':
            v = side.current(op['o2'], op['p2'])
            if side is self.model:
                v = in_order(v.data, self.real.current(op['o2'], op['p2'])) if isinstance(v, MC) else v
            return side.assign(op['o'], op['p'], v)
        c = side.current(op['o'], op['p']) if a == 'mut' else side.handles[op['k'] % len(side.handles)]
        return side.apply(c, op['m'], op['args'], op['kw'])

    def step(self, op):
        real, model, st = self.real, self.model, self.st
        a = op['a']
        if a in ('mut', 'iop'):
            if kind_of(model.data(model.current(op['o'], op['p']))) != KINDS[op['p']]:
                return
        if a == 'hmut' and (not real.handles or
                            kind_of(model.handles[op['k'] % len(model.handles)].data) != op['on']):
            return
        if a == 'move' and model.current(op['o2'], op['p2']) is None:
            return
        if a == 'grab':
            c = model.current(op['o'], op['p'])
            if kind_of(model.data(c)) is None:
                return
            self.keep(real.current(op['o'], op['p']), c)
            return
        real.start(op)
        real.calls = []
        r = attempt(lambda: self.call(real, op))
        real.inj.disarm()
        model.start(op)
        model.ncalls = 0
        m = attempt(lambda: self.call(model, op))
        model.inj.disarm()
        ro = ['ok', show(r[1])] if r[0] == 'ok' else outcome(r[1])
        mo = ['ok', show(m[1])] if m[0] == 'ok' else outcome(model.as_real(m[1]))
        st.log(a, op.get('p'), op.get('m'), ro, real.log)
        if r[0] == 'err':
            st.nontrivial = True
            if isinstance(r[1], real.p.ValidationError) and not hasattr(r[1], '_marker'):
                st.fault('a rejected mutation or assignment')
        what = '%s %s %s' % (a, op.get('p', ''), op.get('m', ''))
        require(real.log == model.log, 'notifications', '%s notified %s instead of %s', what, real.log, model.log)
        require(ro == mo, 'result', '%s gave %s instead of %s', what, ro, mo)
        if a == 'iop' and r[0] == 'ok':
            st.probe('in-place operators')
        self.compare(what)
        if r[0] == 'ok' and kind_of(r[1]) and a in ('mut', 'hmut') and (op['m'] in FRESH or op['m'] in IOPS) \
                and len(real.handles) < 12:
            self.keep(r[1], m[1] if isinstance(m[1], MC) else MC(m[1]))
        st.probe('operations compared with the builtin')

    def keep(self, r, m):
        for k, x in enumerate(self.real.handles):
            if x is r:
                require(self.model.handles[k] is m, 'identity', 'a container took the place of another')
                return
        self.real.handles.append(r)
        self.model.handles.append(m)

    def compare(self, what):
        real, model = self.real, self.model
        for o in (0, 1):
            for name in sorted(KINDS):
                r, m = real.current(o, name), model.current(o, name)
                require(show(r) == show(m), 'contents', 'after %s object %d %s holds %s instead of %s',
                        what, o, name, show(r), show(m))
                if kind_of(r):
                    require(kind_of(r) == KINDS[name], 'contents', '%s holds a %s', name, kind_of(r))
                    require(not any(isinstance(x, float) for x in r), 'contents', '%s holds an item that is not coerced', name)
                for k, (hr, hm) in enumerate(zip(real.handles, model.handles)):
                    require((hr is r) == (hm is m), 'identity', 'after %s a held container was %s on object %d %s',
                            what, 'kept' if hr is r else 'replaced', o, name)
        for k, (hr, hm) in enumerate(zip(real.handles, model.handles)):
            require(show(hr) == show(hm.data), 'other-container',
                    'after %s another container holds %s instead of %s', what, show(hr), show(hm.data))


# -- generators -----------------------------------------------------------------

def item(rng, name):
    if name == 'ns':
        return rng.choice(['a', 'B', 'c', 'cc', 'a', 5])
    if name == 'ps':
        return {'P': rng.randint(0, 3)} if rng.random() < .93 else rng.choice([1, 'p'])
    if name == 'ws':
        return rng.choice(['x', 'y', 'z', 'A', 'B', 'q'])
    return rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 2.0, 7.0] * 2 + [10, -1, 'q', 2.5])


def items(rng, name, hi=3):
    return [item(rng, name) for _ in range(rng.randint(0, hi))]


def pair(rng, name):
    if name == 'ds':
        return [rng.choice(['a', 'b', 'A', 'B', 'c', 4] if rng.random() < .3 else ['a', 'b', 'A', 'B', 'c']),
                rng.choice([1, 2, 3, 4.0, 9, 10, 'z'] if rng.random() < .3 else [1, 2, 3, 4.0])]
    return [rng.randint(0, 4), rng.choice([[], [1], [2, 3], [3.0]] if rng.random() < .8 else [[77], 5, 'x'])]


def iterable(rng, name, hi=3):
    r = rng.random()
    xs = items(rng, name, hi)
    hashed = [x for x in xs if not isinstance(x, dict)]
    if r < .35:
        return xs
    if r < .5:
        return {'t': xs}
    if r < .7:
        return {'gen': xs}
    if r < .82 and name != 'ps':
        return {'s': hashed}
    if r < .88 and name != 'ps':
        return {'keys': hashed}
    return {'h': rng.randint(0, 20)}


def likely(name):
    return ['A', 'B', 'C'] if name == 'ns' else ['A', 'B'] if name == 'ws' else None


def gen_method(rng, name, kind, held):
    """(method, args, kwargs)"""
    if kind == 'list':
        idx = lambda: rng.choice([0, 0, 1, 2, -1, -2, 5])   # noqa: E731
        sl = lambda: {'slice': [rng.choice([None, 0, 1]), rng.choice([None, 1, 2]),     # noqa: E731
                                rng.choice([None, None, 1, 2, -1])]}
        m = wchoice(rng, dict(append=6, extend=4, insert=3, pop=4, remove=3, clear=1, reverse=2, sort=3, __setitem__=4,
                              __delitem__=3, index=1, count=1, copy=1, add=1, radd=.5, mul=1, rmul=.5, __getitem__=1,
                              len=.3, eq=.5, lt=.3, iter=.3, copycopy=1, builtin=.3, reversed=.3, iadd=1, imul=.5,
                              **{'in': .5}))
        if m in ('append', 'remove', 'index', 'count', 'in'):
            return m, [item(rng, name)], {}
        if m == 'extend':
            return m, [iterable(rng, name)], {}
        if m == 'insert':
            return m, [idx(), item(rng, name)], {}
        if m == 'pop':
            return m, [] if rng.random() < .5 else [idx()], {}
        if m == 'sort':
            kw = {}
            if rng.random() < .6 and name != 'ps':
                kw['key'] = {'key': 'neg' if name in ('xs', 'ts', 'us') else 'str'}
            if rng.random() < .4:
                kw['reverse'] = True
            return m, [], kw
        if m == '__setitem__':
            if rng.random() < .35:
                return m, [sl(), iterable(rng, name)], {}
            return m, [idx(), item(rng, name)], {}
        if m in ('__delitem__', '__getitem__'):
            return m, [sl() if rng.random() < .4 else idx()], {}
        if m in ('mul', 'rmul', 'imul'):
            return m, [rng.choice([0, 1, 2, 2, -1, 1.5])], {}
        if m in ('add', 'radd', 'eq', 'lt'):
            return m, [items(rng, name) if rng.random() < .6 else iterable(rng, name)], {}
        if m == 'iadd':
            return m, [iterable(rng, name)], {}
        return m, [], {}
    if kind == 'set':
        m = wchoice(rng, dict(sadd=6, remove=3, discard=3, pop=3, clear=1, update=3, difference_update=2,
                              intersection_update=2, symmetric_difference_update=2, union=1, difference=1,
                              intersection=1, symmetric_difference=1, issubset=.5, issuperset=.5, isdisjoint=.5, copy=1,
                              ror=.5, rand=.5, sub=1, rsub=.5, xor=1, rxor=.5, eq=.5, lt=.3, len=.3, iter=.3,
                              copycopy=1, builtin=.3, ior=.7, iand=.4, isub=.5, ixor=.5,
                              **{'in': .5, 'or': 1, 'and': 1}))
        if m in ('sadd', 'remove', 'discard', 'in'):
            return m, [item(rng, name)], {}
        if m in ('update', 'union', 'difference_update', 'intersection_update', 'difference', 'intersection'):
            return m, [iterable(rng, name) for _ in range(rng.choice([1, 1, 1, 2, 0]))], {}
        if m in ('symmetric_difference', 'symmetric_difference_update', 'issubset', 'issuperset', 'isdisjoint'):
            return m, [iterable(rng, name)], {}
        if m in ('pop', 'clear', 'copy', 'len', 'iter', 'copycopy', 'builtin'):
            return m, [], {}
        if rng.random() < .8:
            hashed = [x for x in items(rng, name) if not isinstance(x, dict)]
            return m, [rng.choice([{'s': hashed}, {'fs': hashed}, {'keys': hashed}])], {}
        return m, [iterable(rng, name)], {}
    m = wchoice(rng, dict(__setitem__=6, __delitem__=3, pop=4, popitem=2, setdefault=3, update=4, clear=1, get=1, keys=.5,
                          values=.3, items=.5, copy=1, fromkeys=.7, ror=.5, eq=.5, len=.3, iter=.3, copycopy=1,
                          builtin=.3, ior=1, __getitem__=1, reversed=.3, **{'in': .5, 'or': 1}))
    k, v = pair(rng, name)
    if m == '__setitem__':
        return m, [k, v], {}
    if m in ('__delitem__', '__getitem__', 'in'):
        return m, [k.upper() if isinstance(k, str) and rng.random() < .7 else k], {}
    if m in ('pop', 'get'):
        k = k.upper() if isinstance(k, str) and rng.random() < .7 else k
        return m, [k] if rng.random() < .6 else [k, 3], {}
    if m == 'setdefault':
        return m, [k, v], {}
    pairs = [pair(rng, name) for _ in range(rng.randint(0, 3))]
    if m == 'update':
        kw = {rng.choice('abc'): rng.choice([1, 2, 10])} if rng.random() < .3 else {}
        r = rng.random()
        arg = [{'d': pairs}] if r < .4 else [pairs] if r < .6 else [{'gen': pairs}] if r < .8 else [{'h': rng.randint(0, 20)}]
        return m, arg if rng.random() < .9 else [], kw
    if m in ('or', 'ror', 'eq'):
        return m, [{'d': pairs} if rng.random() < .7 else rng.choice([{'h': rng.randint(0, 20)}, pairs])], {}
    if m == 'ior':
        return m, [{'d': pairs} if rng.random() < .6 else rng.choice([{'h': rng.randint(0, 20)}, pairs, {'gen': pairs}])], {}
    if m == 'fromkeys':
        return m, [[p[0] for p in pairs], v], {}
    return m, [], {}


def gen_value(rng, name):
    kind = KINDS[name]
    r = rng.random()
    if r < .12:
        return {'h': rng.randint(0, 20)}
    if r < .17:
        return rng.choice([5, 'text', None, {'d': []}, {'t': [1]}])
    if kind == 'list':
        return items(rng, name, 4)
    if kind == 'set':
        return {'s': [x for x in items(rng, name, 4) if not isinstance(x, dict)]}
    return {'d': [pair(rng, name) for _ in range(rng.randint(0, 3))]}


class Containers(core.Scenario):
    name = 'containers'
    quick = 24000
    thorough = 800000
    batch = 150

    def gen(self, rng, tier):
        focus = rng.sample(sorted(KINDS), rng.choice([1, 1, 2, 3]))
        ops = []

        def add(a, **kw):
            ops.append(dict(a=a, i=len(ops), **kw))

        def prop():
            return rng.choice(focus)
        reverting = rng.random() < .35

        def act():
            n = prop()
            r = rng.random()
            if r < .25 and not reverting:
                return dict(k='assign', o=rng.randint(0, 1), p=n, v=gen_value(rng, n), swallow=rng.random() < .5)
            if reverting:
                # alone: a nested change would detach what is reverted to
                return dict(k='revert')
            m, args, kw = gen_method(rng, n, KINDS[n], True)
            return dict(k='mut', o=rng.randint(0, 1), p=n, m=m, args=args, kw=kw, swallow=rng.random() < .5)
        for n in focus:
            if rng.random() < .9:
                v = [1, 3, 2] if n in ('xs', 'ts', 'us') else ['a', 'b'] if n == 'ns' else [{'P': 0}, {'P': 2}] if n == 'ps' \
                    else {'s': [1, 2, 5]} if n == 'ys' else {'s': ['x', 'z']} if n == 'ws' \
                    else {'d': [['a', 1], ['b', 2]]} if n == 'ds' else {'d': [[1, [1]], [2, []]]}
                add('assign', o=0, p=n, v=v, faults=[])
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            add('listen', o=0 if rng.random() < .8 else 1, p=prop(), mode=rng.choice(['validate', 'change', 'set']),
                acts=[act() if rng.random() < .5 else None for _ in range(rng.choice([0, 0, 1, 2]))])
        for _ in range(rng.randint(4, 14) if tier == 'quick' else rng.randint(4, 40)):
            n, o = prop(), 0 if rng.random() < .75 else 1
            f = gen_faults(rng, .22, 5)
            k = wchoice(rng, dict(mut=14, hmut=5, iop=2, grab=4, assign=2, move=1.5, delete=.5, reset=.7))
            if k == 'mut':
                m, args, kw = gen_method(rng, n, KINDS[n], True)
                add('mut', o=o, p=n, m=m, args=args, kw=kw, faults=f)
            elif k == 'hmut':
                m, args, kw = gen_method(rng, n, KINDS[n], False)
                add('hmut', k=rng.randint(0, 20), on=KINDS[n], m=m, args=args, kw=kw, faults=f)
            elif k == 'iop':
                while True:
                    m, args, kw = gen_method(rng, n, KINDS[n], True)
                    if m in IOPS:
                        break
                add('iop', o=o, p=n, m=m, arg=args[0], faults=f)
            elif k == 'move':
                same = [x for x in focus if KINDS[x] == KINDS[n]]
                add('move', o=o, p=n, o2=rng.randint(0, 1), p2=rng.choice(same), faults=f)
            elif k == 'assign':
                add('assign', o=o, p=n, v=gen_value(rng, n), faults=f)
            else:
                add(k, o=o, p=n, faults=f)
        return dict(ops=ops)

    def run(self, plan, st):
        mach = Machine(plan, st)
        for op in plan['ops']:
            mach.step(op)


CHECK = Check('C13', [Containers()],
              ['properties.base.containers', 'properties.base', 'properties.handlers', 'item property types'],
              ['listeners, generators and sort keys (scripted, failing on demand)'],
              'a run counts when an operation failed (injected exception, rejected items, builtin error); '
              'histories are distinct by sha1 of the event log')
