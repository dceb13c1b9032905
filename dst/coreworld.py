"""The core world: HasProperties classes, listeners, scopes, faults.

One interpreter runs a plan against two sides - the real library and an
independent model written from the documentation - and compares, after every
operation, the outcome, the event log (callback calls, default factories,
error hooks, dynamic getters, deprecation warnings) and the state of every
object. Exceptions are injected at callback crossings chosen by the plan.
"""
import json
import operator
import warnings

from . import core, seams
from . import values as V
from .values import UNDEF, ModelValidationError, canon, dec

MODES = ('validate', 'observe_change', 'observe_set')


class Skip(BaseException):
    """The operation does not apply here (same on both sides)"""


class FaultBase(BaseException):
    """An injected exception that is not an Exception"""


EXCS = {
    'ValueError': ValueError, 'KeyError': KeyError, 'TypeError': TypeError,
    'AttributeError': AttributeError, 'RuntimeError': RuntimeError, 'OSError': OSError,
    'MemoryError': MemoryError, 'ZeroDivisionError': ZeroDivisionError,
    'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit,
    'GeneratorExit': GeneratorExit, 'FaultBase': FaultBase,
}
EXC_NAMES = ['VE', 'VE'] + sorted(EXCS)
PASS_THROUGH = (Skip, core.NoProgress, core.Violation)

IOPS = {'__iadd__': operator.iadd, '__imul__': operator.imul, '__ior__': operator.ior,
        '__iand__': operator.iand, '__isub__': operator.isub, '__ixor__': operator.ixor}


# -- interpreter ---------------------------------------------------------------

class World(object):
    def __init__(self, plan, side, st=None):
        self.plan = plan
        self.side = side
        self.st = st
        self.events = []
        self.listeners = {}
        self.fuel = 0
        self.ncross = 0
        self.sched = {}
        self.opid = None
        self.nnew = 0
        self.vstack = []
        self.fired = 0
        self.swallowed = 0
        self.substituted = 0
        self.cms = {}
        self.cm_depth = {}
        self.defining = True
        side.world = self
        side.define(plan['classes'])
        self.defining = False

    # an operation; returns its canonical outcome
    def run_op(self, op):
        self.events = []
        self.fuel = op.get('fuel', 30)
        self.ncross = 0
        self.sched = dict((int(f['n']), f['exc']) for f in op.get('faults', []))
        self.opid = op['i']
        self.nnew = 0
        self.vstack = []
        self.fired = 0
        self.swallowed = 0
        self.substituted = 0
        try:
            return ['ok', self.do(op, None, None)]
        except Skip:
            return ['skip']
        except PASS_THROUGH:
            raise
        except BaseException as err:
            return self.side.outcome(err, op['a'] == 'new')

    def cross(self, site):
        if self.defining:
            return
        self.ncross += 1
        name = self.sched.get(self.ncross)
        if name is None:
            return
        self.fired += 1
        if self.st is not None:
            self.st.fault('%s raised in %s' % (name, site))
        marker = 'F%s.%d' % (self.opid, self.ncross)
        if name == 'VE':
            err = self.side.validation_error(marker)
        else:
            err = EXCS[name](marker)
        err._marker = marker
        err._kind = name
        raise err

    def log(self, *event):
        self.events.append(list(event))

    def callback(self, l, obj, ch):
        side = self.side
        name = ch.get('name')
        self.log('cb', l['lid'], side.label(obj), name, canon(ch.get('previous'), side),
                 canon(ch.get('value'), side), ch.get('mode'), canon(side.raw(obj, name), side))
        validating = l['mode'] == 'validate'
        if validating:
            self.vstack.append((obj, name))
        try:
            self.cross('a ' + l['mode'] + ' listener')
            for act in l.get('body', []):
                self.act(act, obj, ch)
            if l.get('body'):
                self.cross('a ' + l['mode'] + ' listener')
        finally:
            if validating:
                self.vstack.pop()

    def act(self, act, obj, ch):
        if self.fuel <= 0:
            return
        self.fuel -= 1
        kind = act['a']
        try:
            if kind == 'subst':
                v = act['by'].get(ch['name'])
                if v is not None and ch['mode'] == 'validate':
                    when = act.get('when', 'any')
                    has = ch['value'] is not self.side.undefined
                    if (when == 'any' or (when == 'set') == has) and self.in_domain(obj, ch['name'], v):
                        ch['value'] = dec(v, self.side)
                        self.substituted += 1
            elif kind == 'tamper':
                # listeners share the dictionary of a phase; the next phase starts afresh
                ch['previous'] = 'tampered'
            elif kind == 'reject':
                v = act['by'].get(ch['name'])
                if v is not None and canon(ch['value'], self.side) == v:
                    err = self.side.validation_error('rejected')
                    err._marker = 'rejected'
                    err._kind = 'VE'
                    raise err
            else:
                self.do(act, obj, ch)
        except Skip:
            pass
        except PASS_THROUGH:
            raise
        except Exception as err:
            if not act.get('swallow'):
                raise
            self.swallowed += 1
            self.log('swallowed', self.side.outcome(err, act['a'] == 'new'))

    def in_domain(self, obj, name, v):
        """Validators only substitute valid values (a subclass may have retyped the property)"""
        if v == ['undef']:
            return True
        spec = self.side.specs[self.side.cls_of(obj)][name]
        if spec['t'] not in ('int', 'float', 'str', 'choice', 'dt', 'color'):
            return False
        try:
            return canon(V.coerce(spec, dec(v), None, name)) == canon(dec(v))
        except ValueError:
            return False

    def target(self, node, obj):
        ref = node['o']
        if ref == 'self':
            if obj is None:
                raise Skip()
            return obj
        return self.side.obj(ref)

    def guard(self, obj, name):
        """Do not assign a container or object that is in its own validate phase"""
        real = self.side.resolve(obj, name)
        spec = self.side.specs[self.side.cls_of(obj)].get(real)
        if spec is not None and spec['t'] in ('int', 'float', 'str', 'choice', 'dt', 'color'):
            return
        for o, n in self.vstack:
            if o is obj and n == real:
                raise Skip()

    def do(self, node, obj, ch):
        side = self.side
        kind = node['a']
        if kind in ('set', 'del', 'reset', 'mut', 'get', 'mutraw'):
            tgt = self.target(node, obj)
            name = node['p']
            if not side.has(tgt, name):
                raise Skip()
            if kind == 'get':
                return canon(side.get(tgt, name), side)
            self.guard(tgt, name)
            if kind == 'set':
                if V.tagged_array(node['v']) and not side.takes_arrays(tgt, name):
                    raise Skip()
                side.set(tgt, name, dec(node['v'], side))
            elif kind == 'del':
                side.delete(tgt, name)
            elif kind == 'reset':
                side.reset(tgt, name)
            elif kind == 'mutraw':
                # a container that is not observed, changed in place
                spec = side.specs[side.cls_of(tgt)].get(name)
                cur = side.raw(tgt, name)
                if spec is None or spec.get('observe_mutations') or spec['t'] != node['on'] \
                        or cur is None or len(cur) > 24:
                    raise Skip()
                getattr(cur, node['m'])(*[dec(a, side) for a in node['args']])
            else:
                if not side.held(tgt, name, node['on']) or len(side.raw(tgt, name)) > 24:
                    raise Skip()
                return canon(side.mut(tgt, name, node['m'], [dec(a, side) for a in node['args']]), side)
            return None
        if kind == 'new':
            kwargs = [(k, dec(v, side)) for k, v in node['kwargs']]
            new = side.construct(node['cls'], kwargs)
            return side.label(new)
        if kind == 'reg':
            tgt = self.target(node, obj)
            l = node['l']
            if not side.can_observe(tgt, l['names']):
                raise Skip()
            side.register(tgt, l)
            return None
        if kind == 'with':
            cm = side.scope(node['type'])
            with cm:
                self.body(node['body'], obj, ch)
                if node.get('exc'):
                    err = EXCS[node['exc']]('left by exception')
                    err._marker = 'left'
                    err._kind = node['exc']
                    if self.st is not None:
                        self.st.fault('scope left by %s' % node['exc'])
                    raise err
            return None
        if kind == 'cm':
            self.cms[node['id']] = side.scope(node['type'])
            return None
        if kind == 'enter':
            cm = self.cms.get(node['id'])
            if cm is None or self.cm_depth.get(node['id'], 0) >= 3:
                raise Skip()
            cm.__enter__()
            self.cm_depth[node['id']] = self.cm_depth.get(node['id'], 0) + 1
            return None
        if kind == 'exit':
            if not self.cm_depth.get(node['id']):
                raise Skip()
            self.cm_depth[node['id']] -= 1
            if node.get('exc'):
                err = EXCS[node['exc']]('x')
                r = self.cms[node['id']].__exit__(type(err), err, None)
            else:
                r = self.cms[node['id']].__exit__(None, None, None)
            return bool(r)
        if kind == 'keys':
            tgt = self.target(node, obj)
            return side.keys(tgt)
        raise ValueError(kind)

    def body(self, nodes, obj, ch):
        for node in nodes:
            if obj is not None:
                self.act(node, obj, ch)
                continue
            try:
                self.log('inner', self.do(node, None, None))
            except Skip:
                pass
            except PASS_THROUGH:
                raise
            except BaseException as err:
                self.log('inner', self.side.outcome(err, node['a'] == 'new'))
                if node.get('esc'):
                    raise

    def factory(self, key, vals, state):
        """A default factory: counts its calls"""
        if self.defining:
            return dec(vals[0], self.side)
        self.log('factory', key)
        self.cross('a default factory')
        n = state['n']
        state['n'] += 1
        return dec(vals[n % len(vals)], self.side)

    def outstanding(self):
        """Close every scope still open (last op of a run)"""
        for cid in sorted(self.cm_depth):
            while self.cm_depth[cid] > 0:
                self.cm_depth[cid] -= 1
                self.cms[cid].__exit__(None, None, None)


# -- common to both sides -------------------------------------------------------

def borrowable(spec):
    """Containers whose every level is copied when assigned elsewhere"""
    if spec['t'] not in ('list', 'set', 'dict', 'tuple'):
        return False
    inner = [spec.get(k) for k in (('key', 'value') if spec['t'] == 'dict' else ('item',))]
    if any(x is None for x in inner):
        return False
    return all(x['t'] in ('int', 'float', 'str', 'choice', 'dt', 'color', 'bool') or borrowable(x) for x in inner)


def parents(cs):
    return [b for b in (cs.get('base'), cs.get('base2')) if b is not None]


def linear(classes, i):
    """Method resolution order (C3), or None if there is none"""
    seqs = []
    for b in parents(classes[i]):
        seq = linear(classes, b)
        if seq is None:
            return None
        seqs.append(list(seq))
    seqs.append(parents(classes[i]))
    out = [i]
    while any(seqs):
        for s in seqs:
            if s and not any(s[0] in t[1:] for t in seqs):
                head = s[0]
                break
        else:
            return None
        out.append(head)
        seqs = [[x for x in t if x != head] for t in seqs]
    return out


def ancestry(classes, i):
    """The class and its bases, furthest first"""
    return linear(classes, i)[::-1]


def ordinary(classes, i):
    """Bases read one by one give the same order as the resolution order"""
    mro = linear(classes, i)
    if mro is None:
        return False
    seen = []
    for b in reversed(parents(classes[i])):
        for c in ancestry(classes, b):
            if c not in seen:
                seen.append(c)
    return seen == mro[:0:-1]


class Side(object):
    def __init__(self):
        self.world = None
        self.objs = {}
        self.order = []
        self.specs = []        # per class: dict name -> spec (all levels)
        self.cspecs = []

    def obj(self, label):
        if label not in self.objs:
            raise Skip()
        return self.objs[label]

    def new_label(self):
        w = self.world
        label = '%s#%d' % (w.opid, w.nnew)
        w.nnew += 1
        return label

    def prepare(self, classes):
        self.cspecs = classes
        self.specs = []
        self.renames = []
        self.dynamics = []
        self.frozen = []
        self.chain = []
        for i in range(len(classes)):
            chain = ancestry(classes, i)
            specs, ren, dyn, frozen = {}, {}, {}, {}
            for c in chain:
                for name, spec in classes[c]['props']:
                    specs[name] = spec
                for old, new, warn in classes[c].get('renamed', []):
                    ren[old] = (new, warn)
                for d in classes[c].get('dynamic', []):
                    dyn[d['name']] = d
                for name, d in classes[c].get('frozen', []):
                    frozen[name] = d
            self.chain.append(chain)
            self.specs.append(specs)
            self.renames.append(ren)
            self.dynamics.append(dyn)
            self.frozen.append(frozen)

    def resolve(self, obj, name):
        ren = self.renames[self.cls_of(obj)]
        while name in ren:
            name = ren[name][0]
        return name

    def takes_arrays(self, obj, name):
        name = self.resolve(obj, name)
        c = self.cls_of(obj)
        if name in self.frozen[c]:
            return False
        spec = self.dynamics[c][name]['spec'] if name in self.dynamics[c] else self.specs[c][name]
        return V.has_array(spec) or spec['t'] == 'inst'

    def has(self, obj, name):
        c = self.cls_of(obj)
        return name in self.specs[c] or name in self.renames[c] or name in self.dynamics[c] \
            or name in self.frozen[c]

    def can_observe(self, obj, names):
        c = self.cls_of(obj)
        return names == '*' or all(n in self.specs[c] for n in names)

    def outcome(self, err, detail=False):
        marker = getattr(err, '_marker', None)
        if marker is not None:
            return ['raise', err._kind, marker]
        if detail and self.is_validation_error(err):
            tuples = self.error_props(err)
            return ['reject', 'VE', tuples]
        if isinstance(err, ValueError):
            return ['reject', 'ValueError', None]
        return ['raise', type(err).__name__, None]

    def snapshot(self):
        return [[label, [[n, canon(self.raw(self.objs[label], n), self)]
                         for n in self.stored(self.cls_of(self.objs[label]))]]
                for label in self.order]

    def stored(self, cls):
        return sorted(self.specs[cls]) + sorted(self.frozen[cls])

    def held_value(self, label, name):
        """What another property holds now, itself"""
        obj = self.obj(label)
        spec = self.specs[self.cls_of(obj)].get(name)
        if spec is None or not borrowable(spec):
            raise Skip()
        v = self.raw(obj, name)
        if v is None or len(v) > 24:
            raise Skip()
        return v


# -- the real library -------------------------------------------------------------

class RealSide(Side):
    def __init__(self):
        super().__init__()
        self.p = seams.load()
        self.undefined = self.p.undefined
        self.labels = {}
        self.keep = []
        self.making = set()

    def define(self, classes):
        self.prepare(classes)
        self.classes = []
        for i, cs in enumerate(classes):
            self.classes.append(self.make(i, cs))

    # env for values.build
    def default(self, d):
        if d[0] == 'val':
            return dec(d[1], self)
        if d[0] == 'fac':
            key, vals = d[1], d[2]
            state = {'n': 0}
            world = self.world

            def factory():
                return world.factory(key, vals, state)
            return factory
        if d[0] == 'cls':
            return self.classes[d[1]]
        raise ValueError(d)

    def cls(self, i):
        return self.classes[i]

    def custom_property(self, spec, kw):
        world, p = self.world, self.p

        class Custom(p.Property):
            def validate(self, instance, value):
                world.cross('a custom property validate')
                if isinstance(value, int):
                    return value
                self.error(instance, value)
        return Custom('custom', **kw)

    def make(self, index, cs):
        p, side, world = self.p, self, self.world
        base = cs.get('base')
        ns = {}
        if base is None:
            root = p.HasProperties
            ns['_REGISTRY'] = {}

            def __init__(self, **kwargs):
                side.begin(self, index)
                try:
                    p.HasProperties.__init__(self, **kwargs)
                finally:
                    side.making.discard(id(self))
                side.done(self)

            def _error_hook(self, error_tuples):
                if id(self) in side.making:
                    world.log('hook', side.label(self), [t.prop for t in error_tuples])
                    world.cross('an error hook')
            ns['__init__'] = __init__
            ns['_error_hook'] = _error_hook
        else:
            root = self.classes[base]
        for name, spec in cs['props']:
            ns[name] = V.build(spec, p, self)
        for old, new, warn in cs.get('renamed', []):
            ns[old] = p.Renamed(new, warn=bool(warn))
        for d in cs.get('dynamic', []):
            ns[d['name']] = self.make_dynamic(d)
        if cs.get('defaults'):
            ns['_defaults'] = dict((k, self.default(d)) for k, d in cs['defaults'])
        for name, d in cs.get('frozen', []):
            ns[name] = p.GettableProperty('frozen', default=self.default(d))
        for l in cs.get('listeners', []):
            ns['_l_%s' % l['lid']] = self.handler(l)
        roots = (root,)
        if cs.get('base2') is not None:
            roots += (self.classes[cs['base2']],)
        return type(p.HasProperties)(str('K%d' % index), roots, ns)

    def make_dynamic(self, d):
        side, world = self, self.world
        name = d['name']

        def getter(self):
            return world_dyn_get(world, side, self, d)
        getter.__name__ = name
        prop = V.build(d['spec'], self.p, self)(getter)
        if d.get('set'):
            def setter(self, value):
                world_dyn_set(world, side, self, d, value)
            setter.__name__ = name
            prop = prop.setter(setter)
        if d.get('del'):
            def deleter(self):
                world_dyn_del(world, side, self, d)
            deleter.__name__ = name
            prop = prop.deleter(deleter)
        return prop

    def names_arg(self, names):
        return self.p.everything if names == '*' else list(names)

    def handler(self, l):
        p, world = self.p, self.world

        def func(self, change):
            world.callback(l, self, change)
        if l['mode'] == 'validate':
            return p.validator(self.names_arg(l['names']))(func)
        return p.observer(self.names_arg(l['names']), change_only=l['mode'] == 'observe_change')(func)

    def register(self, obj, l):
        p, world = self.p, self.world

        def func(inst, change):
            world.callback(l, inst, change)
        if l['mode'] == 'validate':
            p.validator(obj, self.names_arg(l['names']), func)
        else:
            p.observer(obj, self.names_arg(l['names']), func, change_only=l['mode'] == 'observe_change')

    def begin(self, obj, index):
        if self.world.defining:
            return
        label = self.new_label()
        self.labels[id(obj)] = label
        self.keep.append(obj)
        self.making.add(id(obj))

    def done(self, obj):
        if self.world.defining:
            return
        label = self.labels[id(obj)]
        self.objs[label] = obj
        self.order.append(label)

    def cls_of(self, obj):
        return int(type(obj).__name__[1:])

    def label(self, obj):
        return self.labels.get(id(obj), '?')

    def index(self, v):
        return self.labels.get(id(v))

    def raw(self, obj, name):
        return getattr(obj, name)

    def get(self, obj, name):
        return getattr(obj, name)

    def set(self, obj, name, v):
        setattr(obj, name, v)

    def delete(self, obj, name):
        delattr(obj, name)

    def reset(self, obj, name):
        obj._reset(name)

    def held(self, obj, name, typ):
        spec = self.specs[self.cls_of(obj)].get(name)
        if spec is None or not spec.get('observe_mutations') or spec['t'] != typ:
            return False
        return getattr(obj, name) is not None

    def mut(self, obj, name, method, args):
        if method in IOPS:
            v = getattr(obj, name)
            v = IOPS[method](v, *args)
            setattr(obj, name, v)
            return None
        return getattr(getattr(obj, name), method)(*args)

    def construct(self, cls, kwargs):
        return self.classes[cls](**dict(kwargs))

    def scope(self, typ):
        p = self.p
        if typ == 'all':
            return p.listeners_disabled()
        if typ == 'validators':
            return p.validators_disabled()
        if typ == 'observers':
            return p.observers_disabled()
        return p.listeners_disabled(typ if isinstance(typ, str) else list(typ))

    def keys(self, obj):
        return sorted(obj.serialize(include_class=False))

    def validation_error(self, marker):
        return self.p.ValidationError('injected', 'fault', marker)

    def is_validation_error(self, err):
        return isinstance(err, self.p.ValidationError)

    def error_props(self, err):
        text = str(err)
        return [t.prop if t.message in text else 'not told: %s' % (t.message,) for t in err.error_tuples]


# -- the model ------------------------------------------------------------------------

class MObj(object):
    __slots__ = ('cls', 'vals', 'listeners', 'label_', 'testing')

    def __init__(self, cls):
        self.cls = cls
        self.vals = {}
        self.listeners = []
        self.label_ = None
        self.testing = False


class MScope(object):
    def __init__(self, side, kinds):
        self.side = side
        self.kinds = kinds

    def __enter__(self):
        for k in self.kinds:
            self.side.disabled[k] += 1

    def __exit__(self, *exc):
        for k in self.kinds:
            self.side.disabled[k] -= 1
        return False


SCOPES = {'all': MODES, 'validators': ('validate',), 'observers': ('observe_set', 'observe_change')}


class ModelSide(Side):
    undefined = UNDEF

    def __init__(self):
        super().__init__()
        self.disabled = dict((m, 0) for m in MODES)

    def define(self, classes):
        self.prepare(classes)
        self.porder = []       # order in which defaults are applied
        self.defaults = []     # class-level overrides, inherited
        self.lorder = []       # class listeners, base first
        self.fstate = {}
        self.known = []
        self.forder = []
        for i, cs in enumerate(classes):
            own = [n for n, _ in cs['props']]
            chain = self.chain[i]
            # first definition gives the position, unless this very class redefines it
            order, forder, d, ls = [], [], {}, []
            for c in chain[:-1]:
                for n, _ in classes[c]['props']:
                    if n not in order:
                        order.append(n)
            order = [n for n in order if n not in own] + own
            for c in chain:
                for k, v in classes[c].get('defaults', []):
                    d[k] = (('c', c, k), v)
                ls += classes[c].get('listeners', [])
                if c != i:
                    forder += [n for n, _ in classes[c].get('frozen', []) if n not in forder]
            own = [n for n, _ in cs.get('frozen', [])]
            forder = [n for n in forder if n not in own] + own
            self.porder.append(order)
            self.forder.append(forder)
            self.defaults.append(d)
            self.lorder.append(ls)
        self.where = []        # class that defines each property (for factory state)
        for i, cs in enumerate(classes):
            w = {}
            for c in self.chain[i]:
                for n, _ in classes[c]['props'] + classes[c].get('frozen', []):
                    w[n] = c
            self.where.append(w)

    @staticmethod
    def array(t):
        return V.Arr(t[1], V.numpy_of(t))

    # env for values.coerce
    def is_instance(self, v, c):
        return isinstance(v, MObj) and c in self.chain[v.cls]

    def construct_kw(self, c, d):
        if not all(isinstance(k, str) for k in d):
            raise TypeError('keywords must be strings')
        return self.construct(c, list(d.items()))

    def construct_bad(self, c, v):
        self.blank(c)
        raise TypeError('positional argument')

    def custom_coerce(self, spec, v, name):
        self.world.cross('a custom property validate')
        if isinstance(v, int):
            return v
        V.invalid(name)

    def equal(self, a, b):
        if not isinstance(a, MObj) or not isinstance(b, MObj):
            return bool(a == b)
        if a.testing:
            return False
        a.testing = True
        try:
            if a is b:
                return True
            if a.cls != b.cls:
                return False
            if any(a.vals[n] != b.vals[n] for n in self.forder[a.cls]):
                return False
            for n in self.porder[a.cls]:
                va, vb = a.vals.get(n), b.vals.get(n)
                if va is None and vb is None:
                    continue
                if va is None or vb is None or not V.eq(self.specs[a.cls][n], va, vb, self):
                    return False
            return True
        finally:
            a.testing = False

    # objects
    def cls_of(self, obj):
        return obj.cls

    def label(self, obj):
        return obj.label_ or '?'

    def index(self, v):
        return v.label_ if isinstance(v, MObj) else None

    def raw(self, obj, name):
        return obj.vals.get(name)

    def warn(self, flag):
        if flag:
            self.world.log('warn')

    def through(self, obj, name):
        ren = self.renames[obj.cls]
        while name in ren:
            self.warn(ren[name][1])
            name = ren[name][0]
        return name

    def get(self, obj, name):
        name = self.through(obj, name)
        d = self.dynamics[obj.cls].get(name)
        if d is not None:
            v = world_dyn_get(self.world, self, obj, d)
            if v is None or v is UNDEF:
                return None
            return V.coerce(d['spec'], v, self, name)
        return obj.vals.get(name)

    def set(self, obj, name, v):
        name = self.through(obj, name)
        d = self.dynamics[obj.cls].get(name)
        if d is not None:
            if not d.get('set'):
                raise AttributeError('no setter')
            world_dyn_set(self.world, self, obj, d, V.coerce(d['spec'], v, self, name))
            return
        if name in self.frozen[obj.cls]:
            raise AttributeError('immutable')
        if v is not UNDEF:
            v = V.coerce(self.specs[obj.cls][name], v, self, name)
        self.assign(obj, name, v)

    def assign(self, obj, name, v):
        prev = obj.vals.get(name, UNDEF)
        ch = {'name': name, 'previous': prev, 'value': v, 'mode': 'validate'}
        self.notify(obj, ch)
        v = ch['value']
        if v is UNDEF:
            obj.vals.pop(name, None)
        else:
            obj.vals[name] = v
        if prev is UNDEF or v is UNDEF:
            changed = prev is not v
        else:
            changed = not V.eq(self.specs[obj.cls][name], prev, v, self)
        if changed:
            self.notify(obj, {'name': name, 'previous': prev, 'value': v, 'mode': 'observe_change'})
        self.notify(obj, {'name': name, 'previous': prev, 'value': v, 'mode': 'observe_set'})

    def notify(self, obj, ch):
        if self.disabled[ch['mode']]:
            return
        for l in list(obj.listeners):
            if l['mode'] == ch['mode'] and (l['names'] == '*' or ch['name'] in l['names']):
                self.world.callback(l, obj, ch)

    def delete(self, obj, name):
        name = self.through(obj, name)
        d = self.dynamics[obj.cls].get(name)
        if d is not None:
            if not d.get('del'):
                raise AttributeError('no deleter')
            world_dyn_del(self.world, self, obj, d)
            return
        if name in self.frozen[obj.cls]:
            raise AttributeError('immutable')
        self.assign(obj, name, UNDEF)

    def default_of(self, cls, name):
        if name in self.defaults[cls]:
            key, d = self.defaults[cls][name]
        elif name in self.frozen[cls]:
            key, d = ('p', self.where[cls][name], name), self.frozen[cls][name]
        else:
            spec = self.specs[cls][name]
            if 'default' not in spec:
                return UNDEF
            key, d = ('p', self.where[cls][name], name), spec['default']
        if d[0] == 'val':
            return dec(d[1], self)
        if d[0] == 'fac':
            state = self.fstate.setdefault(key, {'n': 0})
            return self.world.factory(d[1], d[2], state)
        return self.construct(d[1], [])

    def reset(self, obj, name):
        if name not in self.specs[obj.cls]:
            raise AttributeError('not resettable')
        v = self.default_of(obj.cls, name)
        self.set(obj, name, v)

    def blank(self, cls):
        """A new object with its defaults, applied silently"""
        obj = MObj(cls)
        obj.listeners = list(self.lorder[cls])
        for n in self.forder[cls]:
            obj.vals[n] = self.default_of(cls, n)
        with MScope(self, MODES):
            for n in self.porder[cls]:
                v = self.default_of(cls, n)
                if v is not UNDEF:
                    v = V.coerce(self.specs[cls][n], v, self, n)
                    obj.vals[n] = v
        return obj

    def construct(self, cls, kwargs):
        obj = self.blank(cls)
        obj.label_ = self.new_label()
        tuples, other = [], None
        for k, v in kwargs:
            if k not in self.specs[cls] and k not in self.renames[cls] and k not in self.frozen[cls]:
                raise AttributeError('unknown name')
            try:
                self.set(obj, k, v)
            except ModelValidationError as err:
                tuples += err.tuples
            except V.GENERIC as err:
                if other is None:
                    other = err
        if tuples:
            self.world.log('hook', obj.label_, [t[1] for t in tuples])
            self.world.cross('an error hook')
            raise ModelValidationError('construction failed', tuples)
        if other is not None:
            raise other
        self.objs[obj.label_] = obj
        self.order.append(obj.label_)
        return obj

    def held(self, obj, name, typ):
        spec = self.specs[obj.cls].get(name)
        if spec is None or not spec.get('observe_mutations') or spec['t'] != typ:
            return False
        return obj.vals.get(name) is not None

    def mut(self, obj, name, method, args):
        cur = obj.vals[name]
        new = type(cur)(cur)
        if method in IOPS:
            self.set(obj, name, IOPS[method](new, *args))
            return None
        r = getattr(new, method)(*args)
        self.set(obj, name, new)
        return r

    def register(self, obj, l):
        obj.listeners.append(l)

    def scope(self, typ):
        kinds = SCOPES.get(typ) if isinstance(typ, str) else None
        if kinds is None:
            kinds = (typ,) if isinstance(typ, str) else tuple(sorted(set(typ)))
        return MScope(self, kinds)

    def keys(self, obj):
        return sorted(n for n, v in obj.vals.items() if v is not None)

    def validation_error(self, marker):
        return ModelValidationError('injected', [('fault', marker)])

    def is_validation_error(self, err):
        return isinstance(err, ModelValidationError)

    def error_props(self, err):
        return [t[1] for t in err.tuples]


# -- dynamic properties (bodies shared by both sides) ---------------------------------

def world_dyn_get(world, side, obj, d):
    if world.defining:
        return None
    world.log('dget', side.label(obj), d['name'])
    world.cross('a dynamic getter')
    g = d['get']
    if g[0] == 'copy':
        return side.raw(obj, g[1])
    if g[0] == 'pair':
        vals = [side.raw(obj, g[1]), side.raw(obj, g[2])]
        return None if any(v is None for v in vals) else vals
    return dec(g[1], side)


def world_dyn_set(world, side, obj, d, value):
    world.log('dset', side.label(obj), d['name'], canon(value, side))
    world.cross('a dynamic setter')
    world.guard(obj, d['set'])
    side.set(obj, d['set'], value)
    world.cross('a dynamic setter')


def world_dyn_del(world, side, obj, d):
    world.log('ddel', side.label(obj), d['name'])
    world.cross('a dynamic deleter')
    world.guard(obj, d['del'])
    side.delete(obj, d['del'])
    world.cross('a dynamic deleter')


# -- running a plan on both sides --------------------------------------------------------

class Mismatch(object):
    def __init__(self, what, op, k, model, real, info):
        self.what = what        # 'outcome' | 'events' | 'state' | 'crash'
        self.op = op
        self.k = k
        self.model = model
        self.real = real
        self.info = info

    def message(self):
        return '%s differ(s) after op %s %s: expected %s, got %s' % (
            self.what, self.op['i'], describe(self.op), short(self.model), short(self.real))


def short(x):
    s = json.dumps(x, sort_keys=True)
    return s if len(s) < 420 else s[:400] + '...'


def describe(op):
    keep = dict((k, v) for k, v in op.items() if k in ('a', 'o', 'p', 'v', 'm', 'args', 'cls', 'kwargs', 'type',
                                                       'exc', 'id', 'faults'))
    return short(keep)


def first_difference(model, real):
    """Where two event lists or states part"""
    if isinstance(model, list) and isinstance(real, list):
        for i in range(max(len(model), len(real))):
            m = model[i] if i < len(model) else '<nothing>'
            r = real[i] if i < len(real) else '<nothing>'
            if m != r:
                return m, r, i
    return model, real, 0


def run_plan(plan, st=None, compare=('outcome', 'events', 'state')):
    """Runs the plan on both sides. Returns the first Mismatch, or None."""
    want_warn = any(cs.get('renamed') for cs in plan['classes'])
    real_side, model_side = RealSide(), ModelSide()
    real = World(plan, real_side, st)
    model = World(plan, model_side, None)
    old_filters = warnings.filters[:]
    old_show = warnings.showwarning
    if want_warn:
        def show(message, category, filename, lineno, file=None, line=None):
            if issubclass(category, (FutureWarning, DeprecationWarning)) and 'NumPy' not in str(message) \
                    and 'array' not in str(message):
                real.log('warn')
        warnings.simplefilter('always')
        warnings.showwarning = show
    failed_before = 0
    scopes_used = False
    try:
        for k, op in enumerate(plan['ops']):
            if op['a'] in ('with', 'enter'):
                scopes_used = True
            try:
                r_out = real.run_op(op)
            except PASS_THROUGH:
                raise
            m_out = model.run_op(op)
            r_ev, m_ev = real.events, model.events
            if st is not None:
                st.log(op['a'], r_out, r_ev)
                st.steps += len(r_ev)
                st.probe('op.' + op['a'] + '.' + ('ok' if r_out[0] == 'ok' else r_out[0]))
                if model.fired or model.substituted or model.swallowed or m_out[0] in ('reject', 'raise'):
                    st.nontrivial = True
                if model.swallowed:
                    st.probe('failure swallowed inside a listener', model.swallowed)
                if model.substituted:
                    st.probe('validator substituted a value', model.substituted)
            info = dict(failed_before=failed_before, fired=model.fired, substituted=model.substituted,
                        swallowed=model.swallowed, scopes_used=scopes_used, model_out=m_out, real_out=r_out)
            if 'outcome' in compare and not same_outcome(op, m_out, r_out):
                return Mismatch('outcome', op, k, m_out, r_out, info)
            if 'events' in compare and r_ev != m_ev:
                m, r, i = first_difference(m_ev, r_ev)
                info['events'] = (m, r)
                return Mismatch('events', op, k, m, r, info)
            r_snap, m_snap = real_side.snapshot(), model_side.snapshot()
            if 'state' in compare and r_snap != m_snap:
                m, r, i = first_difference(m_snap, r_snap)
                if m and r and m != '<nothing>' and r != '<nothing>' and m[0] == r[0]:
                    pm, pr, i = first_difference(m[1], r[1])
                    m, r = [m[0], pm], [r[0], pr]
                return Mismatch('state', op, k, m, r, info)
            if model.fired or model.swallowed or m_out[0] in ('reject', 'raise'):
                failed_before += 1
        if st is not None:
            st.log('end', real_side.snapshot())
        return None
    finally:
        real.outstanding()
        model.outstanding()
        # a broken tree may leave listeners disabled in this thread: later runs of this
        # process would see it, which is what batch-prefix confirmation is for
        if want_warn:
            warnings.filters[:] = old_filters
            warnings.showwarning = old_show


def same_outcome(op, m, r):
    if m[0] != r[0]:
        return False
    return m == r
