"""Loading documents, with and without failures, and what listeners get to hear."""
from .. import core, seams
from ..coreworld import MODES, SCOPES
from ..sim import Injector, attempt, gen_faults, jsoncopy, require, wchoice

SCOPE_TYPES = ['all', 'validators', 'observers', 'validate', 'observe_set', 'observe_change']
KINDS = ('plain', 'uid', 'single')


class LoadWorld(object):
    def __init__(self, plan, st):
        self.plan, self.st = plan, st
        self.p = p = seams.load()
        self.inj = Injector(st)
        self.heard = []
        self.defining = True
        self.classes = []
        from properties import extras
        roots = {'plain': p.HasProperties, 'uid': extras.HasUID, 'single': extras.Singleton}
        for i, cs in enumerate(plan['classes']):
            self.classes.append(self.make(i, cs, roots[cs['kind']]))
        self.defining = False
        self.scopes = {}
        self.counts = dict((m, 0) for m in MODES)
        self.fresh = 0

    def cross(self, site):
        if not self.defining:
            self.inj.cross(site)

    def make(self, i, cs, root):
        p, world = self.p, self

        class Loud(p.Integer):
            def validate(self, instance, value):
                world.cross('a type validator')
                return super(Loud, self).validate(instance, value)

        def deser(value, **kwargs):
            world.cross('a custom deserializer')
            return value

        def factory():
            world.cross('a default factory')
            return 3
        ns = dict(n=p.Integer('n', min=0, max=50, default=1), s=p.String('s', required=False, deserializer=deser),
                  q=Loud('q', required=False), d=p.Integer('d', default=factory),
                  many=p.List('m', p.Integer('i', min=0), required=False, observe_mutations=bool(i % 2)))
        if cs['kind'] == 'plain':
            ns['_REGISTRY'] = {}
        elif cs['kind'] == 'uid':
            ns.update(_REGISTRY={}, _INSTANCES={})
        else:
            ns.update(_REGISTRY={}, _SINGLETONS={})
            if cs['named']:
                ns['name'] = p.String('name')
        inner = cs.get('child')
        if inner is not None:
            c = self.classes[inner]
            ns['child'] = p.Instance('c', c, required=False)
            ns['kids'] = p.List('k', p.Instance('k', c), required=False)
            ns['uni'] = p.Union('u', [p.Instance('c', c), p.Integer('i')], required=False)
        if cs['kind'] != 'single' and cs['early']:
            def __init__(self, **kwargs):
                for l in cs['early']:
                    world.register(self, l)
                world.cross('a constructor')
                root.__init__(self, **kwargs)
            ns['__init__'] = __init__
        for l in cs['listeners']:
            names = p.everything if l['names'] == '*' else l['names']
            func = self.handler(l)
            ns['_l%d' % l['lid']] = p.validator(names)(func) if l['mode'] == 'validate' else \
                p.observer(names, change_only=l['mode'] == 'observe_change')(func)
        return type(root)(str('L%d' % i), (root,), ns)

    def handler(self, l):
        world = self

        def func(self, change):
            world.heard.append((l['lid'], l['mode'], change['name']))
            world.cross('a listener')
        return func

    def register(self, obj, l):
        p = self.p
        names = p.everything if l['names'] == '*' else l['names']
        if l['mode'] == 'validate':
            p.validator(obj, names, self.handler(l))
        else:
            p.observer(obj, names, self.handler(l), change_only=l['mode'] == 'observe_change')

    # -- operations --------------------------------------------------------------
    def construct(self, i, kwargs):
        if self.plan['classes'][i]['kind'] == 'single':
            self.fresh += 1
            return self.classes[i]('single %d' % self.fresh, **kwargs)
        return self.classes[i](**kwargs)

    def value(self, i, kwargs):
        """Arguments, children built"""
        out = {}
        for k, v in kwargs.items():
            if k in ('child', 'uni') and isinstance(v, dict):
                out[k] = self.construct(self.plan['classes'][i]['child'], v)
            elif k == 'kids':
                out[k] = [self.construct(self.plan['classes'][i]['child'], x) for x in v]
            else:
                out[k] = v
        return out

    def forget(self):
        for c in self.classes:
            for reg in ('_INSTANCES', '_SINGLETONS'):
                if reg in c.__dict__:
                    getattr(c, reg).clear()

    def listeners(self, i):
        cs = self.plan['classes'][i]
        return cs['listeners'] + (cs['early'] if cs['kind'] != 'single' else [])

    def probe(self, where):
        """Who hears an assignment now, in every class"""
        for i, cs in enumerate(self.plan['classes']):
            self.inj.arm('probe', [])
            obj = self.construct(i, {})
            del self.heard[:]
            obj.n = 2
            got = sorted(x[0] for x in self.heard)
            want = sorted(l['lid'] for l in self.listeners(i)
                          if (l['names'] == '*' or 'n' in l['names']) and not self.counts[l['mode']])
            extra = [x for x in got if x not in want]
            missing = [x for x in want if x not in got]
            modes = dict((l['lid'], l['mode']) for l in self.listeners(i))
            require(not missing, 'silenced', 'after %s a listener of kind %s is silent, with open scopes %s', where,
                    sorted(set(modes[x] for x in missing)), dict(self.counts))
            require(not extra, 'not-silenced', 'after %s a listener of kind %s fires, with open scopes %s', where,
                    sorted(set(modes[x] for x in extra)), dict(self.counts))
            if not any(self.counts.values()):
                require(attempt(lambda: setattr(obj, 'n', -1))[0] == 'err', 'type-validation-off',
                        'after %s an invalid value was accepted', where)


class Loads(core.Scenario):
    name = 'loads'
    quick = 3000
    thorough = 150000

    def gen(self, rng, tier):
        classes, lid = [], 0
        for i in range(rng.randint(1, 3)):
            cs = {'kind': rng.choice(KINDS), 'named': rng.random() < .5, 'listeners': [], 'early': []}
            pool = ['n', 's', 'q', 'd', 'many']
            if i and rng.random() < .7:
                same = [j for j in range(i) if (classes[j]['kind'] == 'uid') == (cs['kind'] == 'uid')]
                # (documents of HasUID objects are flat: their children are HasUID objects of the same registry)
                same = [j for j in same if cs['kind'] != 'uid' and classes[j]['kind'] == 'plain']
                if same:
                    cs['child'] = rng.choice(same)
                    pool += ['child', 'kids', 'uni']
            for key, hi in (('listeners', 3), ('early', 2)):
                for _ in range(rng.randint(0 if key == 'early' else 1, hi)):
                    lid += 1
                    names = '*' if rng.random() < .4 else rng.sample(pool, rng.randint(1, 3))
                    cs[key].append({'lid': lid, 'mode': rng.choice(MODES), 'names': names})
            classes.append(cs)
        ops = []
        for i in range(rng.randint(3, 9)):
            kind = wchoice(rng, {'load': 6, 'new': 2, 'enter': 1.5, 'exit': 1})
            op = {'a': kind, 'i': i}
            if kind in ('load', 'new'):
                op.update(c=rng.randrange(len(classes)), faults=gen_faults(rng, .5))
                op['kwargs'] = self.kwargs(rng, classes, op['c'])
                if kind == 'load':
                    op.update(strict=rng.random() < .3, trusted=rng.random() < .4, valid=rng.random() < .3,
                              damage=[self.damage(rng) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))],
                              into=rng.random() < .2)
                elif rng.random() < .4:
                    op['kwargs'][rng.choice(['n', 's', 'q', 'nosuch'])] = rng.choice([-4, 'bad', 2.5])
            elif kind == 'enter':
                op.update(id=rng.randint(1, 3), type=rng.choice(SCOPE_TYPES))
            else:
                op['id'] = rng.randint(1, 3)
            ops.append(op)
        return {'classes': classes, 'ops': ops}

    def kwargs(self, rng, classes, c, depth=0):
        out = {}
        for k, v in (('n', rng.randint(0, 9)), ('s', 'text'), ('q', rng.randint(0, 9)), ('d', 4), ('many', [1, 2])):
            if rng.random() < .6:
                out[k] = v
        ch = classes[c].get('child')
        if ch is not None and depth < 2:
            if rng.random() < .5:
                out['child'] = self.kwargs(rng, classes, ch, depth + 1)
            if rng.random() < .4:
                out['kids'] = [self.kwargs(rng, classes, ch, depth + 1) for _ in range(rng.randint(0, 2))]
            if rng.random() < .4:
                out['uni'] = self.kwargs(rng, classes, ch, depth + 1) if rng.random() < .6 else 5
        return out

    def damage(self, rng):
        return [rng.choice(['n', 's', 'q', 'd', 'many', 'child', '__class__', 'extra']),
                rng.choice(['x', -1, None, [], {}, {'n': 'x'}, [1, 'y'], 'L0', 3])]

    def run(self, plan, st):
        w = LoadWorld(plan, st)
        try:
            for op in plan['ops']:
                self.op(w, op, st)
        finally:
            for cm, kinds in w.scopes.values():
                cm.__exit__(None, None, None)

    def op(self, w, op, st):
        kind = op['a']
        if kind == 'enter':
            if op['id'] in w.scopes:
                return
            p = w.p
            cm = {'all': p.listeners_disabled, 'validators': p.validators_disabled,
                  'observers': p.observers_disabled}.get(op['type'], lambda: p.listeners_disabled(op['type']))()
            cm.__enter__()
            kinds = SCOPES.get(op['type'], (op['type'],))
            w.scopes[op['id']] = (cm, kinds)
            for k in kinds:
                w.counts[k] += 1
            st.fault('a scope is open')
            return
        if kind == 'exit':
            if op['id'] in w.scopes:
                cm, kinds = w.scopes.pop(op['id'])
                cm.__exit__(None, None, None)
                for k in kinds:
                    w.counts[k] -= 1
            return
        c = op['c']
        cs = w.plan['classes'][c]
        if kind == 'new':
            w.inj.arm('c', [])
            how, kwargs = attempt(lambda: w.value(c, op['kwargs']))
            if how == 'err':
                return
            w.inj.arm(op['i'], op['faults'])
            how, obj = attempt(lambda: w.construct(c, kwargs))
            what = 'a construction that %s' % ('succeeded' if how == 'ok' else 'failed')
        else:
            w.inj.arm('s', [])
            how, source = attempt(lambda: w.construct(c, w.value(c, op['kwargs'])))
            if how == 'err':
                return
            doc = jsoncopy(source.serialize())
            body = doc[doc['__root__']] if cs['kind'] == 'uid' else doc
            for k, v in op['damage']:
                body[k] = v
                st.fault('damaged document')
            w.forget()
            kw = dict(strict=op['strict'], trusted=op['trusted'])
            if op['valid']:
                kw['assert_valid'] = True
            if op['into'] and cs['kind'] == 'plain':
                w.inj.arm('s', [])
                kw['_instance'] = w.construct(c, {})
            del w.heard[:]
            w.inj.arm(op['i'], op['faults'])
            how, obj = attempt(lambda: w.classes[c].deserialize(doc, **kw))
            what = 'a load that %s' % ('succeeded' if how == 'ok' else 'failed')
            loud = [x for x in w.heard if not (x[1] == 'validate' and op['valid']) and x[2] != 'name']
            require(not loud, 'load-notified', '%s called a listener of kind %s for %s (class %s)', what,
                    *(sorted(loud)[0][1:] + (cs['kind'],)) if loud else ('', '', ''))
        st.log(kind, how, what)
        if how == 'err':
            st.nontrivial = True
        w.inj.disarm()
        st.probe('%s.%s.%s' % (kind, cs['kind'], how))
        w.probe(what)
