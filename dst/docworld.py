"""Documents: classes whose objects are saved, damaged, loaded and copied.

Classes are built from JSON-representable property types. Snapshots, defaults,
the domain of each type and what strict / trusted / assert_valid must do are
worked out here from the documentation, independently of the library."""
import datetime
import json
import uuid
from urllib.parse import urlparse

from . import seams
from . import values as V
from .sim import Injector, attempt, require
from .values import canon_array, dec, enc

SCALARS = {'int', 'float', 'bool', 'str', 'choice', 'color', 'dt', 'complex', 'url'}


# -- classes -------------------------------------------------------------------

class DocWorld(object):
    def __init__(self, plan, st):
        self.p = seams.load()
        self.undefined = self.p.undefined
        self.plan = plan
        self.st = st
        self.inj = Injector(st)
        self.objs = {}
        self.born = []          # classes constructed, in order
        self.watch = False
        self.events = []
        self.build()

    # env for values.dec / values.build
    def obj(self, label):
        from .coreworld import Skip
        if label not in self.objs:
            raise Skip()
        return self.objs[label]

    def index(self, v):
        return None

    def default(self, d):
        if d[0] == 'val':
            return dec(d[1], self)
        if d[0] == 'cls':
            return self.classes[d[1]]
        vals = d[2]

        def factory():
            self.inj.cross('a default factory')
            return dec(vals[0], self)
        return factory

    def cls(self, i):
        return self.classes[i] if i < len(self.classes) else self.p.HasProperties

    def custom_property(self, spec, kw):
        raise ValueError('no custom types in documents')

    def build(self):
        """A fresh set of classes, as after a restart"""
        p, plan = self.p, self.plan
        self.classes, self.specs, self.renames, self.dynamics, self.checks = [], [], [], [], []
        self.chain = []
        for i, cs in enumerate(plan['classes']):
            b = cs.get('base')
            specs = dict(self.specs[b]) if b is not None else {}
            ren = dict(self.renames[b]) if b is not None else {}
            dyn = dict(self.dynamics[b]) if b is not None else {}
            chk = list(self.checks[b]) if b is not None else []
            for n, s in cs['props']:
                specs[n] = s
            # (a minimised plan may have lost the property)
            cs['defaults'] = [d for d in cs['defaults'] if d[0] in specs]
            cs['renamed'] = [r for r in cs.get('renamed', []) if r[1] in specs or r[1] in ren
                             or any(r[1] == x[0] for x in cs['renamed'])]
            cs['dynamic'] = [d for d in cs.get('dynamic', []) if d[1] in specs]
            if cs.get('check') and cs['check'][0] not in specs:
                cs['check'] = None
            for old, new in cs['renamed']:
                ren[old] = new
            for old in list(ren):
                n = old
                while n in ren:
                    n = ren[n]
                if n not in specs:
                    del ren[old]
            cs['renamed'] = [r for r in cs['renamed'] if r[0] in ren]
            for n, src in cs['dynamic']:
                dyn[n] = src
            chk += [cs['check']] if cs.get('check') else []
            self.chain.append((self.chain[b] if b is not None else []) + [i])
            self.specs.append(specs)
            self.renames.append(ren)
            self.dynamics.append(dyn)
            self.checks.append(chk)
            self.classes.append(self.make(i, cs, specs))
        for i, cs in enumerate(plan['classes']):
            for n, s in cs['props']:
                self.bind(s, self.classes[i]._props[n])
        self.number = dict((c, i) for i, c in enumerate(self.classes))

    def bind(self, spec, prop):
        """Instance properties of classes defined later"""
        if spec is None:
            return
        t = spec['t']
        if t == 'inst':
            prop.instance_class = self.classes[spec['cls']]
        elif t in ('list', 'tuple', 'set'):
            self.bind(spec.get('item'), prop.prop)
        elif t == 'dict':
            self.bind(spec.get('key'), prop.key_prop)
            self.bind(spec.get('value'), prop.value_prop)
        elif t == 'union':
            for s, q in zip(spec['alts'], prop.props):
                self.bind(s, q)

    def make(self, index, cs, specs):
        p, world = self.p, self
        ns = {}
        if cs.get('base') is None:
            root = p.HasProperties
            ns['_REGISTRY'] = {}

            def __init__(self, **kwargs):
                world.born.append(type(self))
                p.HasProperties.__init__(self, **kwargs)
            ns['__init__'] = __init__
        else:
            root = self.classes[cs['base']]
        for n, s in cs['props']:
            ns[n] = self.prop(s)
        for old, new in cs.get('renamed', []):
            ns[old] = p.Renamed(new, warn=False)
        for n, src in cs.get('dynamic', []):
            ns[n] = self.dyn(n, src, specs[src])
        if cs.get('defaults'):
            ns['_defaults'] = dict((k, self.default(d)) for k, d in cs['defaults'])
        if cs.get('check'):
            name, bad = cs['check']

            def check(self):
                world.inj.cross('a class validator')
                if world.snap(getattr(self, name)) == bad:
                    raise p.ValidationError('refused', 'invalid', name, self)
            ns['_check_%d' % index] = p.validator(check)
        if cs.get('observed'):
            def seen(self, change):
                world.events.append([change['mode'], change['name']])
                world.inj.cross('an observer')
            ns['_seen_%d' % index] = p.observer(p.everything)(seen)
        return type(p.HasProperties)(str('K%d' % index), (root,), ns)

    def prop(self, spec):
        p, world = self.p, self
        if spec['t'] == 'uuid':
            return p.Uuid('uuid')
        if spec.get('frozen'):
            inner = V.build(dict((k, v) for k, v in spec.items() if k != 'default'), p, self)

            class Frozen(p.GettableProperty):
                def validate(self, instance, value):
                    return inner.validate(instance, value)

                def serialize(self, value, **kwargs):
                    return inner.serialize(value, **kwargs)

                def deserialize(self, value, **kwargs):
                    return inner.deserialize(value, **kwargs)

                def equal(self, a, b):
                    return inner.equal(a, b)
            return Frozen('frozen', default=self.default(spec['default']))
        prop = V.build(spec, p, self)
        ser = spec.get('ser')
        if ser:
            def to(value, **kwargs):
                world.inj.cross('a serializer')
                return SER[ser][0](value)

            def back(value, **kwargs):
                world.inj.cross('a deserializer')
                return SER[ser][1](value)
            prop.serializer = to
            prop.deserializer = back
        return prop

    def dyn(self, name, src, spec):
        world = self
        spec = dict((k, v) for k, v in spec.items() if k not in ('default', 'observe_mutations', 'ser', 'required'))

        def getter(self):
            return getattr(self, src)
        getter.__name__ = name
        return V.build(spec, self.p, world)(getter)

    # -- values ------------------------------------------------------------------

    def snap(self, v, fill=False):
        """Canonical form of a value; with fill, as it must come back from a document"""
        p = self.p
        if v is None or v is self.undefined:
            return None
        if isinstance(v, p.HasProperties):
            i = self.number.get(type(v))
            if i is None:
                return ['?', type(v).__name__]
            out = []
            fresh = None
            for n in sorted(self.specs[i]):
                x = v._get(n)
                if x is None and fill:
                    if fresh is None:
                        fresh = self.classes[i]()
                    out.append([n, wild(self.snap(fresh._get(n)))])
                else:
                    out.append([n, self.snap(x, fill)])
            return ['H', 'K%d' % i, out]
        if isinstance(v, bool) or type(v).__name__ in ('bool_', 'bool'):
            return ['b', bool(v)]
        if isinstance(v, int):
            return ['i', str(v)]
        if isinstance(v, float):
            return ['f', repr(v)]
        if isinstance(v, complex):
            return ['c', repr(v)]
        if isinstance(v, str):
            return ['s', v]
        if isinstance(v, datetime.datetime):
            return ['dt', (v.replace(microsecond=0) if fill else v).isoformat()]
        if isinstance(v, uuid.UUID):
            return ['uuid', str(v)]
        if isinstance(v, V.Span):
            return V.canon(v)
        if isinstance(v, list):
            return ['l', [self.snap(x, fill) for x in v]]
        if isinstance(v, tuple):
            return ['t', [self.snap(x, fill) for x in v]]
        if isinstance(v, (set, frozenset)):
            return ['set', self.distinct(sorted((self.snap(x, fill) for x in v), key=repr), lambda x: x, fill)]
        if isinstance(v, dict):
            return ['d', self.distinct(sorted(([self.snap(k, fill), self.snap(x, fill)] for k, x in v.items()),
                                              key=repr), lambda x: x[0], fill)]
        if hasattr(v, 'dtype'):
            out = canon_array(type(v).__name__, v)
            if v.size == 0:
                out[2] = '-'
            return out
        return ['?', type(v).__name__]

    @staticmethod
    def distinct(items, key, fill):
        from .coreworld import Skip
        if fill and any(key(a) == key(b) for a, b in zip(items, items[1:])):
            raise Skip()        # date-times that only differ by less than a second
        return items

    def expected(self, obj):
        return self.snap(obj, True)

    # -- what a document may contain ------------------------------------------------

    def exact(self, v, spec):
        """Every nested object is of the class its property declares"""
        if spec is None or v is None:
            return True
        t = spec['t']
        if t == 'inst':
            return type(v) is self.classes[spec['cls']] and self.exact_obj(v)
        if t in ('list', 'tuple', 'set'):
            return all(self.exact(x, spec.get('item')) for x in v)
        if t == 'dict':
            return all(self.exact(x, spec.get('value')) for x in v.values())
        if t == 'union':
            alts = [s for s in spec['alts'] if s['t'] == 'inst']
            if isinstance(v, self.p.HasProperties):
                return any(type(v) is self.classes[s['cls']] for s in alts) and self.exact_obj(v)
        return True

    def exact_obj(self, obj):
        i = self.number[type(obj)]
        return all(self.exact(obj._get(n), s) for n, s in self.specs[i].items())

    def unions_of_instances(self, i, seen=None):
        """Is there a union of several classes reachable from class i"""
        return any(self._multi(s) for j in self.reach(i) for s in self.specs[j].values())

    def untyped(self):
        """Is there a container of anything at all (its items are kept as they are)"""
        def walk(s):
            return s['t'] in ('list', 'tuple', 'set') and not s.get('item') or s['t'] == 'dict' and (
                not s.get('value') or not s.get('key')) or any(walk(s[k]) for k in ('item', 'value', 'key') if s.get(k)) or \
                any(walk(a) for a in s.get('alts', []))
        return any(walk(s) for specs in self.specs for s in specs.values())

    def size(self, obj, memo=None):
        """How large the document of an object is (shared parts count every time)"""
        memo = {} if memo is None else memo
        p = self.p

        def of(v):
            if isinstance(v, p.HasProperties):
                if id(v) not in memo:
                    memo[id(v)] = 10 ** 6       # (a cycle)
                    memo[id(v)] = 1 + sum(of(x) for x in v._backend.values())
                return memo[id(v)]
            if isinstance(v, dict):
                return 1 + sum(of(x) for x in v.values())
            if isinstance(v, (list, tuple, set)):
                return 1 + sum(of(x) for x in v)
            return 1
        return of(obj)

    def _multi(self, spec):
        if spec is None:
            return False
        if spec['t'] == 'union':
            return sum(s['t'] in ('inst', 'dict') for s in spec['alts']) > 1
        return any(self._multi(spec.get(k)) for k in ('item', 'value'))

    def reach(self, i):
        """Classes an object of class i is declared to contain (and i)"""
        out, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j in out:
                continue
            out.add(j)
            for s in self.specs[j].values():
                todo += self._classes_in(s)
            for s, d in self.defaults_of(j):
                if d[0] == 'cls':
                    todo.append(d[1])
        return out

    def defaults_of(self, i):
        out = []
        for c in self.chain[i]:
            cs = self.plan['classes'][c]
            out += [(s, s['default']) for _, s in cs['props'] if 'default' in s]
            out += [(None, d) for _, d in cs.get('defaults', [])]
        return out

    def _classes_in(self, spec):
        if spec is None:
            return []
        if spec['t'] == 'inst':
            return [spec['cls']]
        out = []
        for k in ('item', 'key', 'value'):
            out += self._classes_in(spec.get(k))
        for s in spec.get('alts', []):
            out += self._classes_in(s)
        return out

    def held_ok(self, spec, v, trusted):
        """Is v a coerced value of this type (None: no value)"""
        if spec is None:
            return v is not None
        t = spec['t']
        if t == 'inst':
            if not isinstance(v, self.p.HasProperties):
                return False
            declared = self.classes[spec['cls']]
            if not (isinstance(v, declared) if trusted else type(v) is declared):
                return False
            return self.held_obj(v, trusted)
        if t in ('list', 'tuple', 'set'):
            typ = {'list': list, 'tuple': tuple, 'set': set}[t]
            return isinstance(v, typ) and all(self.held_ok(spec.get('item'), x, trusted)
                                              if spec.get('item') else True for x in v)
        if t == 'dict':
            return isinstance(v, dict) and all(
                (not spec.get('key') or self.held_ok(spec['key'], k, trusted)) and
                (not spec.get('value') or self.held_ok(spec['value'], x, trusted)) for k, x in v.items())
        if t == 'union':
            return any(self.held_ok(s, v, trusted) for s in spec['alts'])
        if t == 'uuid':
            return isinstance(v, uuid.UUID)
        if t == 'arr' or t in V.VECTORS:
            if not hasattr(v, 'dtype') or type(v).__name__ not in ('ndarray', V.VECTORS.get(t)):
                return False
            if spec.get('length') and type(v).__name__ == V.VECTORS[t] and v.shape[-1:] == (int(t[3]),) and \
                    __import__('numpy').isnan(v).any():
                return True     # (nan has no length)
            a = V.Arr(type(v).__name__, __import__('numpy').array(v))
            try:
                w = V.coerce_array(dict(spec, coerce=True), a, 'x')
            except ValueError:
                return False
            if t in V.VECTORS and type(v).__name__ != V.VECTORS[t]:
                return False
            if spec.get('length'):
                return w.a.shape == a.a.shape and bool(abs(w.a - a.a).max() < 1e-6 if a.a.size else True)
            return canon_array('x', w.a) == canon_array('x', a.a)
        if t == 'url':
            return url_ok(spec, v)
        try:
            return V.canon(V.coerce(spec, v, None, 'x')) == V.canon(v)
        except ValueError:
            return False

    def held_obj(self, obj, trusted, bad=None):
        i = self.number.get(type(obj))
        if i is None:
            return False
        for n, s in self.specs[i].items():
            v = obj._get(n)
            if v is not None and not self.held_ok(s, v, trusted):
                if bad is not None:
                    bad.append((n, self.snap(v)))
                return False
        return set(obj._backend) <= set(self.specs[i])

    def valid(self, obj, seen=None):
        """Independent validity: required properties set, class checks pass"""
        seen = set() if seen is None else seen
        if id(obj) in seen:
            return True
        seen.add(id(obj))
        i = self.number[type(obj)]
        for n, s in self.specs[i].items():
            v = obj._get(n)
            if v is None:
                if s.get('required', True) and not s.get('frozen') and s['t'] != 'uuid':
                    return False
            elif not self.valid_value(s, v, seen):
                return False
        for name, bad in self.checks[i]:
            if self.snap(obj._get(name)) == bad:
                return False
        return True

    def valid_value(self, spec, v, seen):
        if isinstance(v, self.p.HasProperties):
            return self.valid(v, seen)
        if spec is None:
            return True
        if spec['t'] in ('list', 'tuple', 'set'):
            if not spec.get('min_length', 0) <= len(v) <= spec.get('max_length', 10 ** 9):
                return False
            return all(self.valid_value(spec.get('item'), x, seen) for x in v)
        if spec['t'] == 'dict':
            return all(self.valid_value(spec.get('value'), x, seen) for x in v.values())
        return True

    # -- strict ---------------------------------------------------------------------

    def output_class(self, i, name, trusted):
        """(class the document is loaded as or None, mismatch)"""
        if not name or name == 'K%d' % i:
            return i, False
        root = self.chain[i][0]
        if trusted and isinstance(name, str):
            for j in range(len(self.classes)):
                if name == 'K%d' % j and self.chain[j][0] == root:
                    return j, False
        return i, True

    def must_refuse(self, i, doc, trusted):
        """A strict load has to raise (looks everywhere but inside unions)"""
        if not isinstance(doc, dict):
            return True
        j, mismatch = self.output_class(i, doc.get('__class__'), trusted)
        if mismatch:
            return True
        known = set(self.specs[j]) | set(self.renames[j]) | set(self.dynamics[j])
        for k, v in doc.items():
            if k == '__class__':
                continue
            if k not in known:
                return True
            n = k
            while n in self.renames[j]:
                n = self.renames[j][n]
            if n in self.dynamics[j]:
                continue
            if self.refuse_value(self.specs[j][n], v, trusted):
                return True
        return False

    def refuse_value(self, spec, v, trusted):
        if spec is None or v is None or spec.get('ser'):
            return False
        t = spec['t']
        if t == 'inst':
            return self.must_refuse(spec['cls'], v, trusted)
        if t in ('list', 'tuple', 'set') and isinstance(v, list):
            return any(self.refuse_value(spec.get('item'), x, trusted) for x in v)
        if t == 'dict' and isinstance(v, dict):
            return any(self.refuse_value(spec.get('value'), x, trusted) for x in v.values())
        return False

    # -- documents ---------------------------------------------------------------------

    def norm_doc(self, i, doc):
        """A document with sets in order and numbers to 9 digits, for comparison"""
        if not isinstance(doc, dict):
            return doc
        if isinstance(doc.get('__class__'), str) and doc['__class__'][1:].isdigit():
            i = int(doc['__class__'][1:])
        out = {}
        for k, v in doc.items():
            n = k
            while n in self.renames[i]:
                n = self.renames[i][n]
            n = self.dynamics[i].get(n, n)
            out[k] = self.norm_value(self.specs[i].get(n), v) if k != '__class__' else v
        return out

    def norm_value(self, spec, v):
        if spec is None or v is None or spec.get('ser'):
            return v
        t = spec['t']
        if t == 'inst':
            return self.norm_doc(spec['cls'], v)
        if t in ('list', 'tuple') and isinstance(v, list):
            return [self.norm_value(spec.get('item'), x) for x in v]
        if t == 'set' and isinstance(v, list):
            return sorted((self.norm_value(spec.get('item'), x) for x in v), key=repr)
        if t == 'dict' and isinstance(v, dict):
            return dict((k, self.norm_value(spec.get('value'), x)) for k, x in v.items())
        if t == 'union':
            if isinstance(v, dict) and v.get('__class__'):
                for s in spec['alts']:
                    if s['t'] == 'inst':
                        return self.norm_doc(s['cls'], v)
            for s in spec['alts']:
                if isinstance(v, list) and s['t'] in ('list', 'tuple', 'set') \
                        or isinstance(v, dict) and s['t'] in ('dict', 'inst'):
                    return self.norm_value(s, v)
            return v
        if t == 'arr' or t in V.VECTORS:
            return rounded(v)
        return v

    def extends(self, small, big, i):
        """big is small, plus values of properties small leaves out"""
        if isinstance(small, dict) and isinstance(big, dict):
            if small.get('__class__') != big.get('__class__'):
                return False
            return all(k in big and self.extends(v, big[k], i) for k, v in small.items())
        if isinstance(small, list) and isinstance(big, list):
            return len(small) == len(big) and all(self.extends(a, b, i) for a, b in zip(small, big))
        return small == big and type(small) is type(big)

    # -- listeners still fire ----------------------------------------------------------

    def canary(self, kind='listeners-silenced'):
        p = self.p
        if not hasattr(self, '_canary'):
            class Canary(p.HasProperties):
                _REGISTRY = {}
                x = p.Integer('x')
            self._canary = Canary
        c = self._canary()
        seen = []
        p.observer(c, 'x', lambda o, ch: seen.append('set'))
        p.observer(c, 'x', lambda o, ch: seen.append('change'), change_only=True)
        p.validator(c, 'x', lambda o, ch: seen.append('validate'))
        c.x = 3
        require(sorted(seen) == ['change', 'set', 'validate'], kind,
                'listeners no longer fire as before: %s', seen)


def url_ok(spec, v):
    if not isinstance(v, str):
        return False
    try:
        u = urlparse(v)
    except ValueError:
        return False
    return bool(u.scheme and u.netloc) and not (spec.get('remove_fragment') and u.fragment) and not (
        spec.get('remove_parameters') and (u.query or u.params))


def wild(s):
    """A default snapshot: a new object has a uuid of its own"""
    if isinstance(s, list):
        return ['uuid', '*'] if s[:1] == ['uuid'] else [wild(x) for x in s]
    return s


def same(want, got):
    if isinstance(want, list) and isinstance(got, list):
        if want == ['uuid', '*']:
            return got[0] == 'uuid'
        return len(want) == len(got) and all(same(a, b) for a, b in zip(want, got))
    return want == got


def rounded(v):
    if isinstance(v, list):
        return [rounded(x) for x in v]
    if isinstance(v, float):
        return float('%.9g' % v)
    return v


SER = {
    'neg': (lambda v: -v, lambda v: -v),
    'rev': (lambda v: v[::-1], lambda v: v[::-1]),
    'wrap': (lambda v: {'items': list(v)}, lambda v: v['items']),
    'flag': (lambda v: 'T' if v else '', lambda v: v == 'T'),
}


# -- generation ----------------------------------------------------------------------

class DocGen(object):
    """Classes, values and documents; remembers which labels exist"""

    def __init__(self, rng, arrays=True, required=.3, renamed=.3, dynamic=.3, frozen=.35, checks=.0, observe=.4,
                 observed=0.0, untyped=.08):
        self.rng = rng
        self.arrays = arrays
        self.required = required
        self.renamed = renamed
        self.dynamic = dynamic
        self.frozen = frozen
        self.checks = checks
        self.observe = observe
        self.observed = observed
        self.untyped = untyped
        self.specs = []
        self.classes_ = []
        self.labels = {}       # label -> class, in order
        self.depth = 0

    # ctx of gen_value
    @property
    def dicts(self):
        return self.depth < 2

    def objs(self, cls):
        return [l for l, c in self.labels.items() if cls in self.chain(c)][-6:]

    def chain(self, c):
        out = []
        while c is not None:
            out.append(c)
            c = self.classes_[c].get('base')
        return out

    def kwargs(self, cls, rng):
        self.depth += 1
        try:
            return ['d', [[enc(n), self.value(s)] for n, s in self.settable(cls) if rng.random() < .5]]
        finally:
            self.depth -= 1

    def settable(self, cls):
        return [(n, s) for n, s in sorted(self.specs[cls].items()) if not s.get('frozen') and s['t'] != 'uuid']

    # types
    def scalar(self, allow=None):
        kinds = set(SCALARS if allow is None else allow)
        return V.gen_type(self.rng, 0, (), kinds, arrays=self.arrays and 'url' in kinds)

    def leaf(self, insts):
        rng = self.rng
        if insts and rng.random() < .4:
            return {'t': 'inst', 'cls': rng.choice(insts)}
        r = rng.random()
        if self.arrays and r < .25:
            return self.array()
        if r < .33:
            return {'t': 'span'} if r < .29 else {'t': 'jdict'}
        return self.scalar()

    def array(self):
        while True:
            s = V.gen_type(self.rng, 0, (), {'arr', 'vec3', 'vec2', 'vec3a', 'vec2a'})
            # which shape an empty array had is not in its document
            if s['t'] == 'arr' and s['shape'] is not None and len(s['shape']) > 1:
                continue
            return s

    def union(self, insts):
        rng = self.rng
        pool = [
            [self.scalar({'int'}), {'t': 'choice', 'choices': [['a', ['alpha']], ['B', ['beta']]]}],
            [{'t': 'float', 'min': -5.5, 'max': 9.75}, {'t': 'choice', 'choices': [['a', ['alpha']], ['c', []]]}],
            [{'t': 'color'}, {'t': 'int'}],
            [{'t': 'str'}, {'t': 'int'}],
            [{'t': 'str'}, {'t': 'dt'}][:1] + [{'t': 'list', 'item': {'t': 'int'}}],
            [{'t': 'list', 'item': {'t': 'int'}}, {'t': 'choice', 'choices': [['a', ['alpha']], ['B', []]]}],
            [{'t': 'dict', 'key': {'t': 'str'}, 'value': {'t': 'int'}}, {'t': 'int'}],
            [{'t': 'url'}, {'t': 'int'}],
        ]
        if insts:
            a, b = rng.choice(insts), rng.choice(insts)
            pool += [[{'t': 'inst', 'cls': a}, {'t': 'int'}], [{'t': 'str'}, {'t': 'inst', 'cls': a}],
                     [{'t': 'inst', 'cls': a}, {'t': 'list', 'item': {'t': 'int'}}]]
            if a != b:
                pool += [[{'t': 'inst', 'cls': a}, {'t': 'inst', 'cls': b}]] * 2
        return {'t': 'union', 'alts': json.loads(json.dumps(rng.choice(pool)))}

    def type(self, insts, depth=2):
        rng = self.rng
        r = rng.random()
        if r < .38 or depth == 0:
            return self.leaf(insts)
        if r < .5:
            return self.union(insts)
        k = rng.choice(['list', 'list', 'tuple', 'set', 'dict', 'dict'])
        s = {'t': k}
        if k == 'set':
            s['item'] = self.scalar({'int', 'str', 'float', 'choice', 'color', 'dt', 'complex', 'bool'})
            s['item']['nonan'] = True
        elif k == 'dict':
            s['key'] = self.scalar(rng.choice([{'str'}, {'str'}, {'int'}, {'choice'}, {'float'}, {'dt'}, {'bool'}]))
            s['value'] = self.type(insts, 0 if rng.random() < .6 else depth - 1)
        else:
            s['item'] = self.type(insts, 0 if rng.random() < .6 else depth - 1)
        if k in ('list', 'tuple', 'set') and rng.random() < self.untyped:
            s['item'] = None
        if k == 'dict' and rng.random() < self.untyped * 1.5:
            for part in rng.choice([('key',), ('value',), ('key', 'value'), ('key', 'value')]):
                s[part] = None
        if k != 'tuple' and rng.random() < self.observe:
            s['observe_mutations'] = True
        if rng.random() < .2:
            s['coerce'] = True
        return s

    def custom_type(self):
        rng = self.rng
        ser = rng.choice(['neg', 'rev', 'wrap', 'flag'])
        return {'neg': {'t': 'int', 'ser': 'neg'}, 'rev': {'t': 'str', 'ser': 'rev'},
                'wrap': {'t': rng.choice(['list', 'tuple']), 'item': {'t': 'int'}, 'ser': 'wrap', 'coerce': True},
                'flag': {'t': 'bool', 'ser': 'flag'}}[ser]

    def classes(self, n):
        rng = self.rng
        names = iter('p%s' % c for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGH')
        for i in range(n):
            cs = {'props': [], 'base': None, 'defaults': []}
            if i and rng.random() < .4:
                cs['base'] = rng.randrange(i)
            inherited = dict(self.specs[cs['base']]) if cs['base'] is not None else {}
            insts = list(range(n)) if rng.random() < .75 else []
            if len(insts) > 2:
                insts = rng.sample(insts, 2)
            for _ in range(rng.randint(1, 4)):
                r = rng.random()
                if r < self.frozen * .5:
                    spec = {'t': 'uuid'}
                elif r < self.frozen:
                    spec = dict(self.scalar({'int', 'str', 'choice', 'bool', 'dt'}), frozen=True)
                    spec.pop('cast', None)
                    spec['default'] = ['val', self.plainvalue(spec)]
                elif r < self.frozen + .12:
                    spec = self.custom_type()
                else:
                    spec = self.type(insts)
                if spec['t'] != 'uuid' and not spec.get('frozen'):
                    if spec['t'] in ('list', 'tuple', 'set') and rng.random() < .15:
                        spec['min_length'] = rng.randint(0, 1)
                        spec['max_length'] = rng.randint(3, 6)
                    if rng.random() > self.required:
                        spec['required'] = False
                    if rng.random() < .35:
                        d = self.default_for(spec, i)
                        if d is not None:
                            spec['default'] = d
                cs['props'].append([next(names), spec])
            specs = dict(inherited)
            specs.update(dict((k, s) for k, s in cs['props']))
            self.specs.append(specs)
            self.classes_.append(cs)
            for n_, s in self.settable(i):
                if rng.random() < .2:
                    d = self.default_for(s, i)
                    if d is not None:
                        cs['defaults'].append([n_, d])
            pool = [n_ for n_, s in self.settable(i)]
            if pool and rng.random() < self.renamed:
                cs['renamed'] = [['r%d%d' % (i, k), rng.choice(pool)] for k in range(rng.randint(1, 2))]
                if rng.random() < .3:
                    cs['renamed'].append(['r%dx' % i, cs['renamed'][0][0]])
            scal = [n_ for n_, s in self.settable(i) if not self.has_inst(s) and not s.get('ser')]
            if scal and rng.random() < self.dynamic:
                cs['dynamic'] = [['d%d' % i, rng.choice(scal)]]
            if pool and rng.random() < self.checks:
                n_ = rng.choice(pool)
                cs['check'] = [n_, self.snapvalue(specs[n_])]
            if rng.random() < self.observed:
                cs['observed'] = True
        getattr(rng, 'fork', bool)()    # (threads share classes, not operations)
        return self.classes_

    def has_inst(self, spec):
        if spec is None:
            return False
        return spec['t'] == 'inst' or any(self.has_inst(spec.get(k)) for k in ('item', 'value')) or \
            any(self.has_inst(s) for s in spec.get('alts', []))

    def default_for(self, spec, i):
        rng = self.rng
        if spec['t'] == 'inst':
            if spec['cls'] < i and rng.random() < .7:
                return ['cls', spec['cls']]
            return None
        if self.has_inst(spec) or spec['t'] == 'union' or V.has_type(spec, 'jdict'):
            return None
        v = self.plainvalue(spec)
        if v is None:
            return None
        return ['val', v] if rng.random() < .6 else ['fac', 'f', [v]]

    def plainvalue(self, spec):
        saved = self.labels
        self.labels = {}
        self.depth += 5
        try:
            for _ in range(20):
                v = self.value(spec)
                if v[0] in ('none', 'alien'):
                    continue
                if spec['t'] in ('list', 'tuple', 'set') and (
                        v[0] not in ('l', 't', 'set') or
                        not spec.get('min_length', 0) <= len(v[1]) <= spec.get('max_length', 99)):
                    continue
                return v
            return None
        finally:
            self.labels = saved
            self.depth -= 5

    def snapvalue(self, spec):
        try:
            return V.canon(V.coerce(spec, dec(self.plainvalue(spec)), None, 'x'))
        except Exception:
            return ['never']

    # values
    def value(self, spec, kind='ok'):
        rng = self.rng
        if spec is None:
            return enc(rng.choice(['a', 'b', 'key', '']))
        if kind == 'bad':
            return V.gen_value(spec, rng, 'bad', self)
        t = spec['t']
        if t == 'union':
            return self.value(rng.choice(spec['alts']))
        if t in ('list', 'tuple', 'set'):
            n = rng.choice([0, 1, 1, 2, 2, 3])
            n = max(n, spec.get('min_length', 0))
            items = [self.value(spec['item']) if spec.get('item') else enc(rng.choice([1, 2, 'i', 2.5, 0, '']))
                     for _ in range(n)]
            if t == 'set':
                items = [x for x in items if x[0] not in ('l', 'd', 'set')]
            items = [x for x in items if x[0] != 'none']
            return [{'list': 'l', 'tuple': 't', 'set': 'set'}[t], items]
        if t == 'dict':
            out, seen = [], set()
            for _ in range(rng.choice([0, 1, 2, 2, 3])):
                k = self.value(spec['key'])
                try:
                    ck = repr(V.canon(V.coerce(spec['key'], dec(k), None, 'x') if spec['key'] else dec(k)))
                except Exception:
                    continue
                if ck in seen or k[0] in ('l', 'd', 'set') or 'nan' in ck:
                    continue
                seen.add(ck)
                v = self.value(spec['value'])
                if v[0] != 'none':
                    out.append([k, v])
            return ['d', out]
        if t == 'inst':
            pool = self.objs(spec['cls'])
            if pool and (rng.random() < .6 or not self.dicts):
                return ['o', rng.choice(pool)]
            if self.dicts:
                return self.kwargs(spec['cls'], rng)
            return ['d', []]
        if t == 'int' and rng.random() < .3:
            lo, hi = spec.get('min', -10 ** 20), spec.get('max', 10 ** 20)
            return enc(min(max(rng.choice([0, 10 ** 18 + 7, -(2 ** 63), 1]), lo), hi))
        if t == 'str' and rng.random() < .3 and 'regex' not in spec:
            return enc(rng.choice(['', '\u00e9\u4e16', '\U0001f600', '"q"\\', 'nan', '5', 'true', 'a\nb'] +
                                  (['\ud800'] if self.depth < 5 else [])))
        if t == 'complex' and rng.random() < .3:
            return enc(rng.choice([complex(-0.0, 2), complex(0, float('inf')), 0j, complex(1e-7, -1e22)]))
        if t == 'float' and rng.random() < .3 and 'min' not in spec and 'max' not in spec:
            return enc(rng.choice([0.1 + 0.2, 5e-324, 1.7976931348623157e308, -0.0, float('-inf'), 0.0] + ([] if spec.get('nonan') else [float('nan')])))
        if t == 'dt' and rng.random() < .3:
            return ['dt', rng.choice(['0001-01-01T00:00:00', '9999-12-31T23:59:59.999999', '1970-01-01T00:00:00.500000'])]
        if t == 'bool':
            return enc(bool(rng.getrandbits(1)))
        return V.gen_value(spec, rng, 'ok', self)
