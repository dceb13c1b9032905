"""Graphs of HasProperties objects: shared, cyclic, nested in containers and unions."""
from . import core, seams
from .sim import GENERIC, Injector, attempt, outcome, require

EDGES = ('one', 'many', 'tab', 'pair', 'uni', 'deep', 'must')
PROPS = ('n', 's', 'one', 'many', 'tab', 'pair', 'uni', 'deep', 'nums', 'q')


class GraphWorld(object):
    """Real objects plus the harness' own record of what they hold"""

    def __init__(self, plan, st):
        self.plan, self.st = plan, st
        self.p = p = seams.load()
        self.inj = Injector(st)
        self.quiet = False
        self.hooks = []
        self.hook_raised = []
        self.nodes = []
        self.vals = []          # the record: name -> value (nodes as Ref)
        self.gates = []
        world = self
        opts = plan['opts']

        def ser(value, **kwargs):
            world.cross('a custom serializer')
            return {'S': value}

        def deser(value, **kwargs):
            world.cross('a custom deserializer')
            return value['S']

        class Loud(p.Integer):
            """A user-defined type"""

            def validate(self, instance, value):
                world.cross('a type validator')
                return super(Loud, self).validate(instance, value)

            def equal(self, a, b):
                world.cross('a type comparison')
                return a == b

        def getter(self):
            world.cross('a dynamic getter')
            return 7

        def hook(self, tuples):
            world.hooks.append((self, [(t.instance, t.prop) for t in tuples]))
            world.cross('an error hook', hook=True)
        leaf_ref = p.Instance('o', p.HasProperties, required=False)
        refs = [leaf_ref]

        def inst(**kw):
            r = p.Instance('i', p.HasProperties, **kw)
            refs.append(r)
            return r
        ns = dict(
            _REGISTRY={}, _error_hook=hook,
            n=p.Integer('n', min=0, max=9),
            s=p.String('s', required=False, serializer=ser, deserializer=deser),
            one=leaf_ref,
            many=p.List('m', inst(), required=False, min_length=opts['min'], max_length=3,
                        observe_mutations=False),
            tab=p.Dictionary('t', key_prop=p.String('k'), value_prop=inst(), required=False),
            pair=p.Tuple('p', inst(), required=False),
            uni=p.Union('u', [inst(), p.Integer('i', min=0, max=9)], required=False),
            deep=p.List('d', p.List('l', inst()), required=False),
            nums=p.List('x', p.Integer('i', min=0, max=9), required=False, max_length=3),
            q=Loud('q', required=False),
            dyn=p.Integer('d', required=False)(getter),
        )
        if not isinstance(ns['dyn'], p.basic.DynamicProperty):
            ns.pop('dyn')
        self.rules = {0: [], 1: []}
        for c in (0, 1):
            for j, rule in enumerate(plan['rules'][c]):
                self.rules[c].append(rule)
        ns.update(self.listeners(0))
        meta = type(p.HasProperties)
        n0 = meta('N0', (p.HasProperties,), ns)
        for r in refs:
            r.instance_class = n0
        ns1 = dict(must=p.Instance('must', n0, required=opts['must']))
        ns1.update(self.listeners(1))
        n1 = meta('N1', (n0,), ns1)
        self.classes = [n0, n1]

    def cross(self, site, hook=False):
        if self.quiet:
            return
        before = len(self.inj.fired())
        try:
            self.inj.cross(site)
        finally:
            if hook and len(self.inj.fired()) > before:
                self.hook_raised.append(self.inj.fired()[-1])

    # -- scripted validators -----------------------------------------------------
    def listeners(self, c):
        p, world, out = self.p, self, {}
        for j, rule in enumerate(self.rules[c]):
            name = 'rule%d_%d' % (c, j)
            if rule['on'] is None:
                def check(self, rule=rule):
                    world.cross('a class validator')
                    if rule['reenter']:
                        require(self.validate() is True, 'reentrant', 'validate() inside a class validator did not return True')
                    if not world.applies(self, rule):
                        return [None, True][rule['calm']]
                    return world.act(self, rule, None)
                out[name] = p.validator(check)
            else:
                def watch(self, change, rule=rule):
                    world.cross('a set-validator')
                    if getattr(self, 'gate', False) and world.matches(rule, change['value']):
                        return world.act(self, rule, change)
                    return None
                out[name] = p.validator(rule['on'])(watch)
        return out

    def applies(self, obj, rule):
        return rule['k'] is None or obj._backend.get('n') == rule['k']

    @staticmethod
    def matches(rule, value):
        return rule['on'] != 'n' or rule['k'] is None or value == rule['k']

    def act(self, obj, rule, change):
        do = rule['do']
        if do == 'VE':
            raise self.p.ValidationError('rule', 'invalid', rule['on'], obj)
        if do == 'False':
            return False
        if do == 'sub':
            change['value'] = (change['value'] + 1) % 10
            return None
        raise dict(KeyError=KeyError, TypeError=TypeError, AttributeError=AttributeError)[do]('rule')

    # -- building the graph ---------------------------------------------------------
    def node(self, i):
        return i % len(self.nodes)

    def new(self, cls, n):
        o = self.classes[cls]()
        o.gate = False
        self.nodes.append(o)
        self.vals.append({})
        self.gates.append(False)
        if n is not None:
            self.set(len(self.nodes) - 1, 'n', n)
        return o

    def value(self, i, p, v):
        """(real value, recorded value) or None if the property does not exist"""
        if p in ('n', 's', 'nums', 'q'):
            return v, (list(v) if isinstance(v, list) else v)
        if not self.nodes:
            return None
        if p == 'must' and not isinstance(self.nodes[i], self.classes[1]):
            return None
        if p in ('one', 'must'):
            k = self.node(v[0])
            return self.nodes[k], Ref(k)
        if p == 'uni':
            if isinstance(v, int):
                return v, v
            k = self.node(v[0])
            return self.nodes[k], Ref(k)
        ks = [self.node(x) for x in v]
        if p == 'many':
            return [self.nodes[k] for k in ks], [Ref(k) for k in ks]
        if p == 'pair':
            return tuple(self.nodes[k] for k in ks), tuple(Ref(k) for k in ks)
        if p == 'tab':
            return (dict(('k%d' % j, self.nodes[k]) for j, k in enumerate(ks)),
                    dict(('k%d' % j, Ref(k)) for j, k in enumerate(ks)))
        return ([[self.nodes[k] for k in ks[:1]], [self.nodes[k] for k in ks[1:]]],
                [[Ref(k) for k in ks[:1]], [Ref(k) for k in ks[1:]]])

    def set(self, i, p, v):
        pair = self.value(i, p, v)
        if pair is None:
            return
        o = self.nodes[i]
        gate, o.gate = o.gate, False
        self.quiet = True
        try:
            setattr(o, p, pair[0])
        finally:
            o.gate = gate
            self.quiet = False
        self.vals[i][p] = pair[1]

    def delete(self, i, p):
        if p == 'must' and not isinstance(self.nodes[i], self.classes[1]):
            return
        o = self.nodes[i]
        gate, o.gate = o.gate, False
        self.quiet = True
        try:
            delattr(o, p)
        finally:
            o.gate = gate
            self.quiet = False
        self.vals[i].pop(p, None)

    def mutate(self, i, p, how, v):
        """Change a container that is not observed in place"""
        held, rec = getattr(self.nodes[i], p), self.vals[i].get(p)
        if rec is None:
            return
        if how == 'node':
            k = self.node(v)
            item, ritem = self.nodes[k], Ref(k)
        else:
            item, ritem = junk(v), Junk(v)
        if p == 'nums':
            item, ritem = ('junk' if how == 'junk' else v % 12), (Junk(0) if how == 'junk' else v % 12)
        if how == 'drop':
            if not held:
                return
            if p == 'tab':
                key = sorted(held)[-1]
                del held[key]
                del rec[key]
            elif p == 'deep':
                if held[-1]:
                    held[-1].pop()
                    rec[-1].pop()
            else:
                held.pop()
                rec.pop()
        elif p == 'tab':
            held['z'] = item
            rec['z'] = ritem
        elif p == 'deep':
            held[-1].append(item)
            rec[-1].append(ritem)
        else:
            held.append(item)
            rec.append(ritem)

    # -- views -------------------------------------------------------------------------
    def index(self, o):
        for k, x in enumerate(self.nodes):
            if x is o:
                return k
        return None

    def refs(self, v):
        if isinstance(v, Ref):
            return [v.k]
        if isinstance(v, (list, tuple)):
            return [k for x in v for k in self.refs(x)]
        if isinstance(v, dict):
            return [k for x in v.values() for k in self.refs(x)]
        return []

    def reach(self, start):
        seen, todo = set(), list(start)
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                for v in self.vals[k].values():
                    todo += self.refs(v)
        return seen

    def cyclic(self, k):
        """Can a walk from k enter a cycle?"""
        state = {}

        def walk(x):
            state[x] = 1
            for v in self.vals[x].values():
                for y in self.refs(v):
                    if state.get(y) == 1 or (y not in state and walk(y)):
                        return True
            state[x] = 2
            return False
        return walk(k)

    def props(self, k):
        return PROPS + (('must',) if self.nodes[k].__class__ is self.classes[1] else ())

    def snapshot(self):
        """What every object holds, by identity and recorded contents"""
        out = []
        for k, o in enumerate(self.nodes):
            row = []
            for name, v in sorted(o._backend.items()):
                row.append((name, id(v), self.shape(v)))
            out.append((row, sorted(x for x in o.__dict__ if not x.startswith('_'))))
        return out

    def shape(self, v):
        if isinstance(v, (list, tuple)):
            return [self.shape(x) for x in v]
        if isinstance(v, dict):
            return [(k, self.shape(x)) for k, x in v.items()]
        k = self.index(v)
        return ('node', k) if k is not None else repr(v) if isinstance(v, (int, str, float)) else type(v).__name__

    def check_record(self):
        """The objects hold what the record says"""
        for k, o in enumerate(self.nodes):
            for name in self.props(k):
                got = o._backend.get(name)
                require(self.shape(got) == self.rshape(self.vals[k].get(name)), 'value-changed',
                        'object %d %s holds %s instead of %s', k, name, self.shape(got), self.rshape(self.vals[k].get(name)))

    def rshape(self, v):
        if isinstance(v, Ref):
            return ('node', v.k)
        if isinstance(v, Junk):
            return self.shape(junk(v.v))
        if isinstance(v, (list, tuple)):
            return [self.rshape(x) for x in v]
        if isinstance(v, dict):
            return [(k, self.rshape(x)) for k, x in v.items()]
        return self.shape(v)


class Ref(object):
    def __init__(self, k):
        self.k = k


class Junk(object):
    def __init__(self, v):
        self.v = v


def junk(v):
    return ['junk', 99.5, {'n': 1}, ('x',)][v % 4]


def gen_graph(rng, tier, add, count=None):
    """Objects and edges"""
    n = count or rng.randint(1, 5 if tier == 'quick' else 8)
    for _ in range(n):
        add('new', cls=rng.randint(0, 1), n=rng.randint(0, 9) if rng.random() < .93 else None)
    return n


def gen_set(rng, n):
    p = rng.choice(['n', 's', 'q', 'nums', 'one', 'one', 'many', 'many', 'tab', 'pair', 'uni', 'deep', 'must', 'must'])
    few = lambda hi: [rng.randint(0, n - 1) for _ in range(rng.randint(0, hi))]     # noqa: E731
    if p in ('n', 'q'):
        return p, rng.randint(0, 9)
    if p == 's':
        return p, rng.choice(['a', 'b', ''])
    if p == 'nums':
        return p, [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]
    if p in ('one', 'must'):
        return p, [rng.randint(0, n - 1)]
    if p == 'uni':
        return p, (rng.randint(0, 9) if rng.random() < .3 else [rng.randint(0, n - 1)])
    return p, few(4 if p == 'many' else 2)


def gen_rules(rng, rate=.4):
    rules = [[], []]
    for c in (0, 1):
        while rng.random() < rate and len(rules[c]) < 3:
            if rng.random() < .55:
                rules[c].append(dict(on=None, k=rng.choice([None] + list(range(10)) * 2) if rng.random() < .9 else None,
                                     do=rng.choice(['VE', 'False', 'False', 'KeyError', 'TypeError']),
                                     reenter=rng.random() < .3, calm=rng.randint(0, 1)))
            else:
                on = rng.choice(['n', 'one', 'many', 's', 'n'])
                rules[c].append(dict(on=on, k=rng.choice([None, 1, 3, 5, 7]),
                                     do=rng.choice(['VE', 'KeyError', 'AttributeError'] + (['sub'] if on == 'n' else []))))
    return rules


__all__ = ['GraphWorld', 'Ref', 'Junk', 'gen_graph', 'gen_set', 'gen_rules', 'GENERIC', 'attempt', 'outcome', 'core']
