"""C19: inputs are never modified, and nothing is shared that could be changed
through two handles.

Every root (object, value passed in, document, copy) has a fingerprint that
stops at object references; after each operation only the roots the operation
writes may differ, and no mutable container or array memory may be reachable
from two roots, or from two properties, without going through an object."""
import json

from .. import core
from .. import values as V
from ..coreworld import Skip
from ..docworld import DocGen, DocWorld
from ..sim import attempt, gen_faults, outcome, require, wchoice
from ..values import dec, enc

KINDS = ('l', 't', 'd', 'set', 'arr')


class Tracker(object):
    def __init__(self, w):
        self.w = w
        self.number = {}        # id(object) -> n
        self.objects = []       # every HasProperties ever seen, kept alive
        self.raw = {}           # label -> plain value
        self.prints = {}
        self.keepalive = []

    def see(self, o):
        if id(o) not in self.number:
            self.number[id(o)] = len(self.objects)
            self.objects.append(o)
            self.walk(list(o._backend.values()))

    def walk(self, v):
        """Notice every object inside v"""
        if isinstance(v, self.w.p.HasProperties):
            self.see(v)
        elif isinstance(v, dict):
            for k, x in v.items():
                self.walk(x)
        elif isinstance(v, (list, tuple, set)):
            for x in v:
                self.walk(x)

    def notice(self):
        for o in list(self.objects):
            self.walk(list(o._backend.values()))
        for v in self.raw.values():
            self.walk(v)

    def shape(self, v):
        """Value with objects as references"""
        p = self.w.p
        if isinstance(v, p.HasProperties):
            return ['ref', self.number[id(v)]]
        if isinstance(v, list):
            return ['l', [self.shape(x) for x in v]]
        if isinstance(v, tuple):
            return ['t', [self.shape(x) for x in v]]
        if isinstance(v, (set, frozenset)):
            return ['set', sorted((self.shape(x) for x in v), key=repr)]
        if isinstance(v, dict):
            return ['d', [[self.shape(k), self.shape(x)] for k, x in v.items()]]
        if hasattr(v, 'dtype') and hasattr(v, 'tolist') and hasattr(v, 'shape'):
            return ['arr', type(v).__name__, str(v.dtype), list(v.shape), repr(v.tolist())]
        return [type(v).__name__, repr(v)]

    def now(self):
        self.notice()
        out = {}
        for n, o in enumerate(self.objects):
            out['#%d' % n] = [[k, self.shape(v)] for k, v in sorted(o._backend.items())]
        for l, v in self.raw.items():
            out[l] = self.shape(v)
        return out

    def memory(self):
        """{id: place} of every mutable container; raises when two places share one"""
        seen, w = {}, self.w

        def visit(v, place, spec):
            if isinstance(v, w.p.HasProperties):
                return
            if hasattr(v, 'dtype') and hasattr(v, '__array_interface__') and getattr(v, 'ndim', 0):
                if v.size:
                    claim(('mem', v.__array_interface__['data'][0]), place, 'array memory')
                return
            if by_reference(v, spec) and not place.startswith('d'):
                place, spec = 'the value of an instance property', None
            if isinstance(v, (list, set, dict)):
                claim(id(v), place, type(v).__name__)
            if isinstance(v, dict):
                if spec is not None and not (spec.get('value') or spec.get('alts')):
                    return
                for x in v.values():
                    visit(x, place, sub(spec, 'value'))
            elif isinstance(v, (list, tuple, set)):
                if spec is not None and not (spec.get('item') or spec.get('alts')):
                    return      # items of any type are kept as they are
                for x in v:
                    visit(x, place, sub(spec, 'item'))

        def sub(spec, k):
            return None if spec is None or spec.get('alts') else spec.get(k)

        def claim(key, place, what):
            old = seen.setdefault(key, place)
            require(old == place, 'shared-state', 'one %s is reachable from %s and from %s', what, old, place)
        for n, o in enumerate(self.objects):
            specs = w.specs[w.number[type(o)]]
            for k, v in sorted(o._backend.items()):
                visit(v, '#%d.%s' % (n, k), specs.get(k))
        for l in sorted(self.raw):
            visit(self.raw[l], l, None)


class Frames(core.Scenario):
    name = 'frames'
    world = DocWorld
    quick = 20000
    thorough = 250000
    batch = 60

    def gen(self, rng, tier):
        g = DocGen(rng, checks=.15, observed=.25, required=.15, dynamic=.15, renamed=.15, observe=.5, untyped=.15)
        classes = g.classes(rng.randint(1, 3))
        ops, raws = [], []
        n = rng.randint(6, 18) * (3 if tier == 'thorough' and rng.random() < .3 else 1)
        docs = []
        for i in range(n):
            kinds = dict(new=4)
            if g.labels:
                kinds.update(set=8, mutate=6, reset=1, delete=.7, copy=3, save=2.5, validate=1, equal=1, link=1,
                             gone=.5)
            if docs:
                kinds.update(load=3)
            k = wchoice(rng, kinds)
            op = {'i': i, 'a': k, 'faults': gen_faults(rng, .18)}
            if k == 'new':
                c = rng.randrange(len(classes))
                op.update(cls=c, kwargs=[[n_, self.source(rng, g, s, raws, 'bad' if rng.random() < .05 else 'ok', i)]
                                         for n_, s in g.settable(c) if rng.random() < .6])
                g.labels['o%d' % i] = c
            elif k in ('set', 'reset', 'delete', 'link'):
                o = rng.choice(list(g.labels)[-6:])
                props = g.settable(g.labels[o])
                if not props:
                    op.update(a='validate', o=o)
                else:
                    n_, s = rng.choice(props)
                    pool = [x for x in props if x[1]['t'] in ('list', 'dict', 'set', 'tuple', 'arr') or
                            x[1]['t'] in V.VECTORS]
                    if pool and rng.random() < .7:
                        n_, s = rng.choice(pool)
                    op.update(o=o, p=n_)
                    if k == 'set':
                        op['src'] = self.source(rng, g, s, raws, 'bad' if rng.random() < .15 else 'ok', i)
                    if k == 'link':
                        mates = [(l, m) for l, c in g.labels.items() for m, x in g.settable(c)
                                 if fits(x, s) and fits(s, x) and (l, m) != (o, n_)]
                        if not mates:
                            op['a'] = 'validate'
                        else:
                            l, m = rng.choice(mates)
                            op.update(o2=l, p2=m, both=rng.random() < .4, now=rng.random() < .6)
            elif k == 'mutate':
                op.update(pick=rng.randrange(10 ** 6), at=rng.randrange(10 ** 6), seed=rng.randrange(10 ** 6),
                          how=rng.choice(['add', 'add', 'clear', 'pop', 'assign', 'elem', 'elem', 'reverse', 'key',
                                          'iadd', 'store']))
            elif k == 'load':
                o, j = rng.choice(docs)
                op.update(doc='d%d' % j, cls=o, flags={'trusted': rng.random() < .7, 'strict': rng.random() < .3,
                                                       'assert_valid': rng.random() < .4})
                g.labels['o%d' % i] = o
            else:
                o = rng.choice(list(g.labels)[-6:])
                op['o'] = o
                if k == 'save':
                    docs.append((g.labels[o], i))
                    op['kw'] = rng.choice([{}, {}, {'save_dynamic': True}, {'include_class': False}])
                elif k == 'copy':
                    g.labels['o%d' % i] = g.labels[o]
                elif k == 'equal':
                    op['o2'] = rng.choice(list(g.labels)[-6:])
            ops.append(op)
        return {'classes': classes, 'ops': ops}

    def source(self, rng, g, spec, raws, kind, i):
        """Where the value of an assignment comes from"""
        r = rng.random()
        if loose(spec):
            kind = 'ok'
        same = [l for l, s in raws if fits(s, spec)]
        if same and r < .25:
            return ['raw', rng.choice(same[-5:])]
        if r < .5:
            held = [(l, n) for l, c in list(g.labels.items())[-6:] for n, s in g.settable(c) if fits(s, spec)]
            if held:
                l, n = rng.choice(held)
                return ['held', l, n]
            inner = [(l, n) for l, c in list(g.labels.items())[-6:] for n, s in g.settable(c)
                     if s['t'] in ('list', 'tuple') and s.get('item') and fits(s['item'], spec) or
                     s['t'] == 'dict' and s.get('value') and fits(s['value'], spec)]
            if inner:
                l, n = rng.choice(inner)
                return ['inner', l, n]
        v = g.value(spec, kind)
        label = 'v%d.%d' % (i, len(raws))
        if self.deeply(v):
            raws.append((label, spec))
        return ['new', label, v]

    def deeply(self, v):
        return v[0] in KINDS

    # -- run -----------------------------------------------------------------------

    def run(self, plan, st):
        w = self.world(plan, st)
        w.t = Tracker(w)
        w.edges = []            # links, as ((object, prop), (object, prop))
        w.fresh0 = [self.default_shape(w, c) for c in w.classes]
        before = w.t.now()
        for op in plan['ops']:
            w.inj.disarm()
            writes = set()
            try:
                getattr(self, 'do_' + op['a'])(w, op, st, writes)
                st.log(op['i'], op['a'], 'ok')
            except Skip:
                st.log(op['i'], op['a'], 'skip')
                st.probe('skip.' + op['a'])
            finally:
                w.inj.disarm()
            after = w.t.now()
            for k in sorted(before):
                if k in after and after[k] != before[k]:
                    require(k in writes, 'frame', 'operation %s changed %s: %s -> %s', brief(op), k,
                            json.dumps(before[k])[:400], json.dumps(after[k])[:400])
                    st.probe('writes')
            w.t.memory()
            before = after
            if sum(len(repr(x)) for x in after.values()) > 30000:
                break
        fresh = [self.default_shape(w, c) for c in w.classes]
        require(fresh == w.fresh0, 'defaults-changed', 'new objects start differently than at first: %s -> %s',
                w.fresh0, fresh)

    def default_shape(self, w, c):
        status, o = attempt(c)
        if status == 'err':
            return outcome(o)[:2]
        return no_uuid(w.snap(o))

    def run_faulty(self, w, op, st, call):
        w.inj.arm(op['i'], op['faults'])
        status, r = attempt(call)
        if w.inj.fired():
            st.nontrivial = True
        w.inj.disarm()
        st.log(op['a'], status, outcome(r) if status == 'err' else None)
        return status, r

    def value(self, w, src):
        if src[0] == 'raw':
            if src[1] not in w.t.raw:
                raise Skip()
            return w.t.raw[src[1]]
        if src[0] == 'new':
            v = dec(src[2], w)
            if src[2][0] in KINDS:
                w.t.raw[src[1]] = v
            return v
        o = w.obj(src[1])
        if src[2] not in w.specs[w.number[type(o)]]:
            raise Skip()
        v = o._get(src[2])
        if src[0] == 'inner' and v is not None:
            v = list(v.values()) if isinstance(v, dict) else list(v)
            v = v[0] if v else None
        if v is None:
            raise Skip()
        return v

    def closure(self, w, todo):
        """Everything a change of these properties may reach through links"""
        out, todo = set(), list(todo)
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo += [b for a, b in w.edges if a == x] + [a for a, b in w.edges if b == x]
        return set('#%d' % n for n, _ in out)

    def key(self, w, label):
        o = w.obj(label)
        w.t.see(o)
        return w.t.number[id(o)]

    def known(self, w, label, p):
        if p not in w.specs[w.number[type(w.obj(label))]]:
            raise Skip()

    def do_new(self, w, op, st, writes):
        if not all(n in w.specs[op['cls']] for n, _ in op['kwargs']):
            raise Skip()
        kw = dict((n, self.value(w, s)) for n, s in op['kwargs'])
        status, r = self.run_faulty(w, op, st, lambda: w.classes[op['cls']](**kw))
        if status == 'ok' and w.size(r) < 150:
            w.objs['o%d' % op['i']] = r
            w.t.see(r)

    def do_set(self, w, op, st, writes):
        self.known(w, op['o'], op['p'])
        o, v = w.obj(op['o']), self.value(w, op['src'])
        writes |= self.closure(w, [(self.key(w, op['o']), op['p'])])
        old = o._backend.get(op['p'])
        self.run_faulty(w, op, st, lambda: setattr(o, op['p'], v))
        if w.size(o) > 150:
            o._backend[op['p']] = old
        if op['src'][0] != 'new':
            st.nontrivial = True
            st.probe('assigned a known value')

    def do_delete(self, w, op, st, writes):
        self.known(w, op['o'], op['p'])
        if any((self.key(w, op['o']), op['p']) in e for e in w.edges):
            raise Skip()
        writes.add('#%d' % self.key(w, op['o']))
        self.run_faulty(w, op, st, lambda: delattr(w.obj(op['o']), op['p']))

    def do_reset(self, w, op, st, writes):
        self.known(w, op['o'], op['p'])
        writes |= self.closure(w, [(self.key(w, op['o']), op['p'])])
        self.run_faulty(w, op, st, lambda: w.obj(op['o'])._reset(op['p']))

    def do_link(self, w, op, st, writes):
        self.known(w, op['o'], op['p'])
        self.known(w, op['o2'], op['p2'])
        a = (w.obj(op['o']), op['p'])
        b = (w.obj(op['o2']), op['p2'])
        if a[0] is b[0] and a[1] == b[1] or len(w.edges) >= 2:
            raise Skip()
        w.edges.append(((self.key(w, op['o']), op['p']), (self.key(w, op['o2']), op['p2'])))
        writes |= self.closure(w, [w.edges[-1][0]])
        make = w.p.link if op['both'] else w.p.directional_link
        self.run_faulty(w, op, st, lambda: make(a, b, update_now=op['now']))
        st.nontrivial = True

    def do_gone(self, w, op, st, writes):
        """The label is forgotten; its parts may live on in others"""
        w.obj(op['o'])
        del w.objs[op['o']]

    def do_validate(self, w, op, st, writes):
        self.run_faulty(w, op, st, w.obj(op['o']).validate)

    def do_equal(self, w, op, st, writes):
        a, b = w.obj(op['o']), w.obj(op['o2'])
        self.run_faulty(w, op, st, lambda: w.p.equal(a, b))

    def do_save(self, w, op, st, writes):
        o = w.obj(op['o'])
        status, r = self.run_faulty(w, op, st, lambda: o.serialize(**op['kw']))
        if status == 'ok':
            w.t.raw['d%d' % op['i']] = r

    def do_load(self, w, op, st, writes):
        if op['doc'] not in w.t.raw:
            raise Skip()
        doc = w.t.raw[op['doc']]
        st.nontrivial = True
        flags = dict((k, v) for k, v in op['flags'].items() if v)
        status, r = self.run_faulty(w, op, st, lambda: w.classes[op['cls']].deserialize(doc, **flags))
        if status == 'ok':
            self.apart(w, r, 'a loaded object')
            w.objs['o%d' % op['i']] = r
            w.t.see(r)

    def do_copy(self, w, op, st, writes):
        o = w.obj(op['o'])
        st.nontrivial = True
        status, r = self.run_faulty(w, op, st, lambda: w.p.copy(o))
        if status == 'ok':
            self.apart(w, r, 'a copy')
            w.objs['o%d' % op['i']] = r
            w.t.see(r)

    def apart(self, w, r, what):
        """No part of a new object existed before"""
        w.t.notice()

        def walk(v):
            if isinstance(v, w.p.HasProperties):
                require(id(v) not in w.t.number, 'shared-object', '%s contains object #%s, which existed before', what,
                        w.t.number.get(id(v)))
                for x in v._backend.values():
                    walk(x)
            elif isinstance(v, dict):
                for x in v.values():
                    walk(x)
            elif isinstance(v, (list, tuple, set)):
                for x in v:
                    walk(x)
        walk(r)

    # changing something in place --------------------------------------------------------

    def spots(self, w):
        """Every mutable container: (root, object, prop, spec, container, top)"""
        out = []

        def walk(v, root, own, spec):
            if isinstance(v, w.p.HasProperties) or by_reference(v, spec) and not root.startswith('d'):
                return
            if isinstance(v, (list, dict, set)) or hasattr(v, 'dtype') and getattr(v, 'ndim', 0):
                out.append((root, own, spec, v))
            if isinstance(v, dict):
                for x in list(v.values()):
                    walk(x, root, own, spec.get('value') if spec and not spec.get('alts') else None)
            elif isinstance(v, (list, tuple)):
                for x in v:
                    walk(x, root, own, spec.get('item') if spec and not spec.get('alts') else None)
        for n, o in enumerate(w.t.objects):
            specs = w.specs[w.number[type(o)]]
            for k, v in sorted(o._backend.items()):
                walk(v, '#%d' % n, (n, k), specs.get(k))
        nobj = len(out)
        for l in sorted(w.t.raw):
            walk(w.t.raw[l], l, None, None)
        return out, nobj

    def do_mutate(self, w, op, st, writes):
        w.t.notice()
        spots, nobj = self.spots(w)
        if not spots:
            raise Skip()
        # half the time something passed in, half the time something held
        if 0 < nobj < len(spots) and op['pick'] % 2:
            spots = spots[nobj:]
        elif nobj:
            spots = spots[:nobj]
        root, own, spec, v = spots[(op['pick'] // 2) % len(spots)]
        writes |= {root} if own is None else self.closure(w, [own])
        how = op['how']
        # (an inner container keeps what its user puts in)
        observed = own is not None and spec.get('observe_mutations') and w.t.objects[own[0]]._backend[own[1]] is v
        item = self.item(w, op, v, spec if own else None, observed, own is not None)
        st.nontrivial = True
        st.probe('mutated %s of %s' % (type(v).__name__, 'an object' if own else 'a plain value'))
        if hasattr(v, 'dtype'):
            if not v.size:
                raise Skip()
            flat = v.reshape(-1) if v.flags['C_CONTIGUOUS'] else None
            if flat is None:
                raise Skip()
            act = lambda: flat.__setitem__(op['at'] % v.size, 7)
        elif isinstance(v, list):
            at = op['at'] % len(v) if v else 0
            act = {'add': lambda: v.append(item()), 'clear': v.clear, 'pop': lambda: v.pop(at),
                   'assign': lambda: v.__setitem__(slice(at, at + 1), [item()]),
                   'elem': lambda: v.__setitem__(at, item()), 'reverse': v.reverse,
                   'key': lambda: v.insert(at, item()), 'iadd': lambda: v.__iadd__([item()]),
                   'store': lambda: v.extend([item(), item()])}[how]
        elif isinstance(v, dict):
            keys = sorted(v, key=repr)
            k = keys[op['at'] % len(keys)] if keys else 'new'
            act = {'add': lambda: v.__setitem__(k, item()), 'clear': v.clear, 'pop': lambda: v.pop(k),
                   'assign': lambda: v.update({k: item()}), 'elem': lambda: v.__setitem__(k, item()),
                   'reverse': v.popitem, 'key': lambda: v.setdefault('new', item()),
                   'iadd': lambda: v.update([(k, item())]), 'store': lambda: v.__setitem__('other', item())}[how]
        else:
            items = sorted(v, key=repr)
            x = items[op['at'] % len(items)] if items else 'new'
            act = {'add': lambda: v.add(item()), 'clear': v.clear, 'pop': lambda: v.remove(x),
                   'assign': lambda: v.update([item()]), 'elem': lambda: v.add(item()),
                   'reverse': v.pop, 'key': lambda: v.discard(x), 'iadd': lambda: v.__ior__({item()}),
                   'store': lambda: v.symmetric_difference_update({item()})}[how]
        self.run_faulty(w, op, st, act)

    def item(self, w, op, v, spec, observed, owned):
        """Something to put into the container: a container only if the library
        copies it (a plain container keeps what its user puts in)"""
        import random
        rng = random.Random(op['seed'])
        g = DocGen(rng)
        g.specs, g.classes_, g.depth = w.specs, w.plan['classes'], 1
        count = [0]

        def make():
            sub = None
            if spec is not None:
                sub = spec.get('value') if spec['t'] == 'dict' else spec.get('item')
            if sub is None and owned:
                raise Skip()    # (which type of a union, is not known here)
            if sub is None:
                return rng.choice([5, 'x', 2.5, True])
            if sub['t'] in ('list', 'dict', 'set', 'tuple', 'arr', 'union', 'inst', 'jdict') or sub['t'] in V.VECTORS:
                if not observed:
                    raise Skip()
            tag = g.plainvalue(sub) or enc(3)
            x = dec(tag, w)
            if tag[0] in KINDS and not observed:
                raise Skip()
            if tag[0] in KINDS:
                count[0] += 1
                w.t.raw['m%s.%d' % (op['i'], count[0])] = x
            return x
        return make


def by_reference(v, spec):
    """A dictionary that an instance property holds as it is"""
    return isinstance(v, V.JDict) or bool(spec) and spec['t'] == 'jdict'


def loose(spec):
    """Holds items of any type, which it keeps as they are"""
    if spec is None:
        return True
    parts = {'list': ['item'], 'tuple': ['item'], 'set': ['item'], 'dict': ['value']}.get(spec['t'], [])
    return any(loose(spec.get(k)) for k in parts)


def outline(spec):
    if spec is None:
        return None
    parts = {'list': ['item'], 'tuple': ['item'], 'set': ['item'], 'dict': ['value']}.get(spec['t'], [])
    return [spec['t']] + [outline(spec.get(k)) for k in parts]


def fits(source, spec):
    """May the value of one be given to the other? Only scalars into containers of anything"""
    return source['t'] == spec['t'] and (not (loose(spec) or V.has_type(spec, 'jdict')) or outline(source) == outline(spec))


def brief(op):
    return json.dumps(dict((k, v) for k, v in op.items() if k != 'faults'))[:300]


def no_uuid(v):
    if isinstance(v, list):
        return ['uuid', '*'] if v[:1] == ['uuid'] else [no_uuid(x) for x in v]
    return v


CHECK = core.Check(
    'C19', [Frames()],
    real=['properties assignment, construction, defaults, validate, equal, serialize, deserialize, copy, links and '
          'observed containers of every JSON-representable property type'],
    stub=['callbacks (serializers, deserializers, validators, observers, default factories): scripted, with injected '
          'exceptions'],
    rule='a run counts when a known value was assigned again, something was changed in place, copied, loaded or linked, '
         'or an injected exception was raised; histories are distinct by sha1 of the full event log')
