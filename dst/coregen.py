"""Generates core-world plans: classes, listeners, operations, faults, scopes."""
from . import values as V
from .coreworld import EXC_NAMES, MODES, ModelSide, World, ancestry, borrowable, ordinary

DEFAULT_CFG = dict(
    n_ops=(6, 16), n_classes=(1, 3), n_props=(1, 4), inherit=.45, insts=.5,
    listeners=(0, 3), acts=(0, 2), defaults=.35, class_defaults=.3, override=.25,
    bad=.25, faults=0.0, scopes=0.0, renamed=0.0, dynamic=0.0, observe=.5, custom=.12,
    failing_factories=.1, instance_listeners=.12, diamonds=.3, frozen=.15, borrow=.2,
    weights=dict(set=10, delete=3, reset=3, new=5, mut=6, reg=2, get=0, keys=0, mutraw=0),
    act_weights=dict(subst=3, reject=2, set=5, delete=1, reset=1, new=1, mut=2, scoped=0, tamper=.4),
    fault_ops=('set', 'del', 'reset', 'new', 'mut', 'with', 'get'), swallow=.5, bad_kwargs=.2, unknown_kwargs=.05,
)


def config(**over):
    cfg = dict(DEFAULT_CFG)
    for k in ('weights', 'act_weights'):
        cfg[k] = dict(cfg[k], **over.pop(k, {}))
    cfg.update(over)
    return cfg


class Ctx(object):
    """What gen_value needs to know about the world generated so far"""

    def __init__(self, gen, depth=0):
        self.gen = gen
        self.depth = depth

    @property
    def dicts(self):
        return self.depth < 2

    def objs(self, cls):
        m = self.gen.model
        if m is None:
            return []
        return [label for label in m.side.order if cls in m.side.chain[m.side.objs[label].cls]][-6:]

    def kwargs(self, cls, rng):
        specs = self.gen.specs[cls]
        out = []
        for name in specs:
            if rng.random() < .4:
                kind = 'bad' if rng.random() < self.gen.cfg['bad_kwargs'] else 'ok'
                out.append([V.enc(name), V.gen_value(specs[name], rng, kind, Ctx(self.gen, self.depth + 1))])
        return ['d', out]


class Gen(object):
    def __init__(self, rng, cfg):
        self.rng = rng
        self.cfg = cfg
        self.model = None
        self.specs = []
        self.lid = 0
        self.cms = 0
        self.ctx = Ctx(self)

    def weighted(self, weights):
        items = [(k, w) for k, w in sorted(weights.items()) if w > 0]
        x = self.rng.random() * sum(w for _, w in items)
        for k, w in items:
            x -= w
            if x <= 0:
                return k
        return items[-1][0]

    # -- classes ---------------------------------------------------------------
    def classes(self):
        rng, cfg = self.rng, self.cfg
        out = []
        letters = 'abcdefghijklmnopqrstuvwxyz'
        letters = list(letters) + [a + b for a in letters for b in letters]
        fresh = iter(letters)
        for i in range(rng.randint(*cfg['n_classes'])):
            cs = {'props': [], 'base': None, 'defaults': [], 'listeners': []}
            if i and rng.random() < cfg['inherit']:
                cs['base'] = rng.randrange(i)
                if i > 1 and rng.random() < cfg['diamonds']:
                    cs['base2'] = rng.randrange(i)
                    if cs['base2'] == cs['base'] or not self.mergeable(out, cs, i):
                        cs.pop('base2')
            # unrelated classes may use the same names
            names = iter(letters) if cs['base'] is None and rng.random() < .5 else fresh
            inherited = {}
            for c in ancestry(out + [cs], i)[:-1]:
                inherited.update((n, s) for n, s in out[c]['props'])
            insts = list(range(i)) if rng.random() < cfg['insts'] else []
            for _ in range(rng.randint(*cfg['n_props'])):
                if inherited and rng.random() < cfg['override']:
                    name = rng.choice(sorted(inherited))
                    if any(n == name for n, _ in cs['props']):
                        continue
                else:
                    name = 'p' + next(names)
                    if any(n == name for n, _ in cs['props']):
                        continue
                if rng.random() < cfg['custom']:
                    spec = {'t': 'custom'}
                    if rng.random() < .3:
                        spec = {'t': 'list', 'item': spec}
                        if rng.random() < .5:
                            spec['observe_mutations'] = True
                else:
                    spec = V.gen_type(rng, 2, insts, observe=cfg['observe'])
                if name in inherited:
                    # inherited listeners assign arrays: an array property keeps its type
                    if V.has_array(inherited[name]):
                        spec = dict((k, v) for k, v in inherited[name].items() if k != 'default')
                    elif V.has_array(spec):
                        spec = {'t': 'int'}
                if rng.random() < cfg['defaults']:
                    d = self.default_for(spec, 'p%d%s' % (i, name), i)
                    if d is not None:
                        spec['default'] = d
                cs['props'].append([name, spec])
            if cs['base'] is None and not cs['props']:
                cs['props'].append(['p' + next(names), {'t': 'int'}])
            specs = dict(inherited)
            specs.update(dict((n, s) for n, s in cs['props']))
            # class-level overrides must be valid for the property as this class sees it,
            # inherited overrides too
            bad_inherited = []
            if cs['base'] is not None:
                own = set(n for n, _ in cs['props'])
                for b in ancestry(out + [cs], i)[:-1]:
                    bad_inherited += [k for k, _ in out[b]['defaults'] if k in own]
            for name in sorted(specs):
                if name in bad_inherited or rng.random() < cfg['class_defaults']:
                    d = self.default_for(specs[name], 'c%d%s' % (i, name), i)
                    if d is not None:
                        cs['defaults'].append([name, d])
                    elif name in bad_inherited:
                        # cannot give a valid override: drop the redefinition
                        cs['props'] = [x for x in cs['props'] if x[0] != name]
                        specs[name] = inherited[name]
            if rng.random() < cfg['frozen']:
                v = [V.enc(rng.choice([1, 'x', 2.5, (1, 2)])) for _ in range(rng.randint(1, 3))]
                name = 'g' + next(names)
                cs['frozen'] = [[name, ['val', v[0]] if rng.random() < .4 else ['fac', 'f%d%s' % (i, name), v]]]
            self.specs.append(specs)
            self.extra(cs, i, specs, names)
            for _ in range(rng.randint(*cfg['listeners'])):
                cs['listeners'].append(self.listener(specs, i))
            out.append(cs)
        return out

    def mergeable(self, out, cs, i):
        """Can a class inherit from both, with every inherited override valid for what it sees?"""
        classes = out + [cs]
        if not ordinary(classes, i):
            return False
        merged = {}
        for c in ancestry(classes, i)[:-1]:
            for n, s in out[c]['props']:
                if n in merged and V.has_array(merged[n]) != V.has_array(s):
                    return False
                merged[n] = s
        for c in ancestry(classes, i)[:-1]:
            if any(self.specs[c][k] is not merged[k] for k, _ in out[c]['defaults']):
                return False
        return True

    def extra(self, cs, i, specs, names):
        rng, cfg = self.rng, self.cfg
        mutable = sorted(specs)
        if rng.random() < cfg['renamed']:
            cs['renamed'] = []
            for _ in range(rng.randint(1, 2)):
                old = 'r' + next(names)
                pool = mutable + [o for o, _, _ in cs['renamed']]
                cs['renamed'].append([old, rng.choice(pool), rng.random() < .75])
        if rng.random() < cfg['dynamic']:
            cs['dynamic'] = []
            for _ in range(rng.randint(1, 2)):
                src = rng.choice(mutable)
                spec = dict(specs[src]) if V.has_array(specs[src]) or V.has_type(specs[src], 'jdict') or rng.random() < .6 \
                    else V.gen_type(rng, 1, (), arrays=False)
                for k in ('default', 'observe_mutations'):
                    spec.pop(k, None)
                if self.has_inst(spec) or spec['t'] == 'custom':
                    spec = {'t': 'int', 'max': 7}
                d = {'name': 'd' + next(names), 'spec': spec}
                r = rng.random()
                if r < .6:
                    d['get'] = ['copy', src]
                elif r < .8:
                    other = rng.choice([n for n in mutable if not V.has_array(specs[n])] or [src])
                    if V.has_array(spec):       # complex numbers would lose their imaginary parts
                        other = src
                    d['get'] = ['pair', src, other]
                    d['spec'] = {'t': 'list', 'item': spec}
                else:
                    kind = 'ok' if rng.random() < .7 else 'bad'
                    v = V.gen_value(spec, rng, kind, Ctx(self, 5))
                    d['get'] = ['const', v]
                if rng.random() < .75:
                    d['set'] = src
                if rng.random() < .6:
                    d['del'] = rng.choice(mutable)
                cs['dynamic'].append(d)

    def has_inst(self, spec):
        if spec is None:
            return False
        if spec['t'] in ('inst', 'any'):
            return True
        return any(self.has_inst(spec.get(k)) for k in ('item', 'key', 'value')) or \
            any(self.has_inst(s) for s in spec.get('alts', []))

    def default_for(self, spec, key, i):
        rng = self.rng
        if spec['t'] == 'inst':
            c = spec['cls']
            return ['cls', c]
        if self.has_inst(spec) or spec['t'] == 'custom' or (spec.get('item') or {}).get('t') == 'custom':
            if spec['t'] in ('list', 'set', 'tuple', 'dict'):
                return ['val', {'list': ['l', []], 'set': ['set', []], 'tuple': ['t', []], 'dict': ['d', []]}[spec['t']]]
            if spec['t'] == 'custom':
                return ['val', V.enc(rng.randint(0, 5))]
            return None
        if V.has_type(spec, 'jdict'):
            return None         # (a default held by reference is shared by all objects)
        good = [V.gen_value(spec, rng, 'ok', Ctx(self, 5)) for _ in range(rng.randint(1, 3))]
        if good[0] == ['none']:
            good[0] = V.enc(True)
        if good[0][0] == 'none' or 'alien' in str(good):
            return None
        r = rng.random()
        if r < .45:
            return ['val', good[0]]
        vals = good
        if rng.random() < self.cfg['failing_factories']:
            vals = good[:1] + [V.gen_value(spec, rng, 'bad', Ctx(self, 5))] + good[1:]
        elif rng.random() < .1:
            vals = good + [['undef']]
        return ['fac', key, vals]

    # -- listeners ---------------------------------------------------------------
    def listener(self, specs, cls, names=None):
        rng, cfg = self.rng, self.cfg
        self.lid += 1
        mode = rng.choice(MODES)
        pool = sorted(specs)
        if names is None:
            if rng.random() < .3:
                names = '*'
            else:
                names = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3])))
        body = [self.act(specs, cls, mode, names) for _ in range(rng.randint(*cfg['acts']))]
        return {'lid': self.lid, 'names': names, 'mode': mode, 'body': [b for b in body if b]}

    def act(self, specs, cls, mode, names, depth=0):
        rng, cfg = self.rng, self.cfg
        kind = self.weighted(cfg['act_weights'])
        pool = sorted(specs)
        seen = pool if names == '*' else list(names)
        if kind == 'subst':
            if mode != 'validate':
                return None
            by = {}
            for n in seen:
                if specs[n]['t'] in ('int', 'float', 'str', 'choice', 'dt', 'color'):
                    v = self.coerced(specs[n])
                    if v is not None:
                        by[n] = v
            if rng.random() < .15 and by:
                by[rng.choice(sorted(by))] = ['undef']
            return {'a': 'subst', 'by': by, 'when': rng.choice(['any', 'set', 'set'])} if by else None
        if kind == 'tamper':
            return {'a': 'tamper'}
        if kind == 'reject':
            n = rng.choice(seen)
            v = self.coerced(specs[n], canon=True)
            return {'a': 'reject', 'by': {n: v}} if v is not None else None
        swallow = rng.random() < cfg['swallow']
        o = 'self'
        own = specs
        if self.model is not None and self.model.side.order and rng.random() < .4:
            o = rng.choice(self.model.side.order)
            specs = self.model.side.specs[self.model.side.objs[o].cls]
            pool = sorted(specs)
        if kind in ('set', 'delete', 'reset'):
            n = rng.choice(pool)
            if kind == 'set':
                return {'a': 'set', 'o': o, 'p': n, 'v': self.value(specs[n]), 'swallow': swallow}
            return {'a': 'del' if kind == 'delete' else 'reset', 'o': o, 'p': n, 'swallow': swallow}
        if kind == 'new':
            if cls == 0 and not self.specs:
                return None
            c = rng.randrange(max(1, min(cls, len(self.specs))))
            return dict(self.new(c), swallow=swallow)
        if kind == 'mut':
            m = self.mut_of(o, specs)
            return dict(m, swallow=swallow) if m else None
        if kind == 'scoped' and depth == 0:
            body = [self.act(own, cls, mode, names, 1) for _ in range(rng.randint(1, 2))]
            return {'a': 'with', 'type': self.scope_type(), 'swallow': swallow,
                    'body': [b for b in body if b],
                    'exc': rng.choice([None, None, 'ValueError', 'RuntimeError'])}
        return None

    def coerced(self, spec, canon=False):
        """A value already in coerced form (tagged), or its canonical form"""
        side = self.model.side if self.model is not None else ModelSide()
        for _ in range(4):
            v = V.gen_value(spec, self.rng, 'ok', Ctx(self, 5))
            try:
                c = V.coerce(spec, V.dec(v, side), side, 'x')
                if canon:
                    return V.canon(c, side)
                return V.enc(c)
            except (ValueError, TypeError, AttributeError, KeyError):
                continue
            except BaseException:
                continue
        return None

    def value(self, spec):
        if self.model is not None and borrowable(spec) and self.rng.random() < self.cfg['borrow']:
            ref = self.borrow(spec['t'])
            if ref is not None:
                return ref
        kind = 'bad' if self.rng.random() < self.cfg['bad'] else 'ok'
        return V.gen_value(spec, self.rng, kind, self.ctx)

    def borrow(self, t):
        """The container another property holds"""
        if self.model is None:
            return None
        side, found = self.model.side, []
        for label in side.order[-4:]:
            specs = side.specs[side.objs[label].cls]
            found += [['ref', label, n] for n in sorted(specs) if specs[n]['t'] == t and borrowable(specs[n])
                      and side.objs[label].vals.get(n) is not None]
        return self.rng.choice(found) if found else None

    def scope_type(self):
        rng = self.rng
        return rng.choice(['all', 'all', 'validators', 'observers', 'validate', 'observe_set', 'observe_change',
                           ['validate', 'observe_set'], ['observe_change', 'validate']])

    # -- operations ---------------------------------------------------------------
    def new(self, c):
        rng, cfg = self.rng, self.cfg
        specs = self.specs[c]
        kwargs = []
        for n in rng.sample(sorted(specs), len(specs)):
            if rng.random() < .45:
                kind = 'bad' if rng.random() < cfg['bad_kwargs'] else 'ok'
                kwargs.append([n, V.gen_value(specs[n], rng, kind, self.ctx)])
        if rng.random() < cfg['unknown_kwargs']:
            kwargs.insert(rng.randint(0, len(kwargs)), ['nosuch', V.enc(1)])
        if self.model is not None:
            side = self.model.side
            for old in sorted(side.renames[c]):
                if rng.random() < .4:
                    tgt = old
                    while tgt in side.renames[c]:
                        tgt = side.renames[c][tgt][0]
                    if tgt in specs and not any(k == tgt for k, _ in kwargs):
                        kwargs.append([old, self.value(specs[tgt])])
            for d in sorted(side.dynamics[c]) + sorted(side.frozen[c]):
                if rng.random() < .12:
                    kwargs.append([d, V.enc(1)])
        return {'a': 'new', 'cls': c, 'kwargs': kwargs}

    def mut_of(self, o, specs):
        rng = self.rng
        pool = [n for n in sorted(specs) if specs[n].get('observe_mutations')]
        if not pool:
            return None
        n = rng.choice(pool)
        spec = specs[n]
        m, args = self.method(spec)
        return {'a': 'mut', 'o': o, 'p': n, 'on': spec['t'], 'm': m, 'args': args}

    def mutraw(self, o, specs):
        rng = self.rng
        pool = [n for n in sorted(specs) if specs[n]['t'] in ('list', 'set', 'dict')
                and not specs[n].get('observe_mutations')]
        if not pool:
            return None
        n = rng.choice(pool)
        spec = specs[n]
        it = self.coerced(spec['item']) if spec.get('item') else V.enc(1)
        if it is None:
            return None
        if spec['t'] == 'list':
            m, args = rng.choice([('append', [it]), ('clear', []), ('__setitem__', [V.enc(0), it])])
        elif spec['t'] == 'set':
            m, args = rng.choice([('add', [it]), ('clear', [])])
        else:
            k = self.coerced(spec['key']) if spec.get('key') else V.enc('k1')
            v = self.coerced(spec['value']) if spec.get('value') else V.enc(1)
            if k is None or v is None:
                return None
            m, args = rng.choice([('__setitem__', [k, v]), ('clear', [])])
        return {'a': 'mutraw', 'o': o, 'p': n, 'on': spec['t'], 'm': m, 'args': args}

    def item(self, spec):
        if spec is None:
            return V.enc(self.rng.choice([1, 2, 'i', 2.5]))
        kind = 'bad' if self.rng.random() < self.cfg['bad'] else 'ok'
        return V.gen_value(spec, self.rng, kind, self.ctx)

    def method(self, spec):
        rng = self.rng
        t = spec['t']
        if t == 'list':
            it = spec.get('item')
            m = rng.choice(['append', 'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'clear',
                            '__setitem__', '__delitem__', '__iadd__', '__imul__'])
            if V.has_array(it) and m in ('remove', 'sort'):
                m = 'reverse'
            if m == 'append' or m == 'remove':
                return m, [self.item(it)]
            if m in ('extend', '__iadd__'):
                if rng.random() < .15:
                    ref = self.borrow('list')
                    if ref is not None:
                        return m, [ref]
                return m, [['l', [self.item(it) for _ in range(rng.randint(0, 3))]]]
            if m == 'insert':
                return m, [V.enc(rng.randint(-2, 3)), self.item(it)]
            if m == 'pop':
                return m, [V.enc(rng.randint(-2, 2))] if rng.random() < .6 else []
            if m == '__setitem__':
                return m, [V.enc(rng.randint(-2, 2)), self.item(it)]
            if m == '__delitem__':
                return m, [V.enc(rng.randint(-2, 2))]
            if m == '__imul__':
                return m, [V.enc(rng.choice([0, 1, 2, 'x']))]
            return m, []
        if t == 'set':
            it = spec.get('item')
            m = rng.choice(['add', 'add', 'discard', 'remove', 'update', 'difference_update', 'clear',
                            '__ior__', '__iand__', '__isub__', '__ixor__', 'intersection_update',
                            'symmetric_difference_update'])
            hashable = [x for x in (self.item(it) for _ in range(3)) if x[0] not in ('l', 'd', 'set')]
            if m in ('add', 'discard', 'remove'):
                return m, [hashable[0] if hashable else V.enc(1)]
            if m == 'clear':
                return m, []
            return m, [['set', hashable]]
        key = (lambda: self.item(spec['key'])) if spec.get('key') else (lambda: V.enc(rng.choice(['k1', 'k2', 7])))
        k = key()
        if k[0] in ('l', 'd', 'set', 'alien', 'none', 'f', 'b'):
            k = V.enc('k1')
        v = self.item(spec.get('value'))
        m = rng.choice(['__setitem__', '__setitem__', 'update', 'setdefault', 'pop', 'popitem', 'clear',
                        '__delitem__', '__ior__'])
        if m in ('__setitem__', 'setdefault'):
            return m, [k, v]
        if m in ('update', '__ior__'):
            return m, [['d', [[k, v]]]]
        if m == 'pop':
            return m, [k] if rng.random() < .5 else [k, V.enc('dflt')]
        if m == '__delitem__':
            return m, [k]
        return m, []

    def op(self):
        rng, cfg = self.rng, self.cfg
        side = self.model.side
        kind = self.weighted(cfg['weights'])
        if not side.order and kind != 'new':
            kind = 'new'
        if kind == 'new':
            return self.new(rng.randrange(len(self.specs)))
        o = rng.choice(side.order[-4:])
        cls = side.objs[o].cls
        specs = side.specs[cls]
        pool = sorted(specs)
        alias = sorted(side.renames[cls]) + sorted(side.dynamics[cls]) + sorted(side.frozen[cls])
        if kind in ('set', 'delete', 'get') and alias and rng.random() < (.6 if alias[-1][0] != 'g' else .15):
            n = rng.choice(alias)
            tgt = side.resolve(side.objs[o], n)
            spec = side.dynamics[cls][tgt]['spec'] if tgt in side.dynamics[cls] else specs.get(tgt, {'t': 'int'})
        else:
            n = rng.choice(pool)
            spec = specs[n]
        if kind == 'set':
            v = self.value(spec)
            if rng.random() < .04:
                v = ['undef']
                if n in alias:
                    v = self.value(spec)
            cur = side.objs[o].vals.get(n)
            if rng.random() < .15 and cur is not None:
                try:
                    v = V.enc(cur)          # set the same value again
                except TypeError:
                    pass
            return {'a': 'set', 'o': o, 'p': n, 'v': v}
        if kind in ('delete', 'get'):
            return {'a': 'del' if kind == 'delete' else 'get', 'o': o, 'p': n}
        if kind == 'reset':
            if alias and rng.random() < .1:
                n = rng.choice(alias)
            return {'a': 'reset', 'o': o, 'p': n}
        if kind == 'mut':
            m = self.mut_of(o, specs)
            return m or {'a': 'set', 'o': o, 'p': n, 'v': self.value(spec)}
        if kind == 'mutraw':
            return self.mutraw(o, specs) or {'a': 'reset', 'o': o, 'p': n}
        if kind == 'reg':
            return {'a': 'reg', 'o': o, 'l': self.listener(specs, len(self.specs))}
        if kind == 'keys':
            return {'a': 'keys', 'o': o}
        raise ValueError(kind)

    def scope_op(self):
        rng = self.rng
        r = rng.random()
        if r < .35:
            body = []
            for _ in range(rng.randint(1, 3)):
                if rng.random() < .25:
                    inner = [dict(self.op(), esc=rng.random() < .2) for _ in range(rng.randint(1, 2))]
                    body.append({'a': 'with', 'type': self.scope_type(), 'body': inner,
                                 'esc': rng.random() < .4,
                                 'exc': rng.choice([None, None, 'ValueError', 'KeyboardInterrupt'])})
                else:
                    body.append(dict(self.op(), esc=rng.random() < .2))
            return {'a': 'with', 'type': self.scope_type(), 'body': body,
                    'exc': rng.choice([None, None, None, 'ValueError', 'RuntimeError', 'KeyboardInterrupt', 'FaultBase'])}
        if r < .55 or not self.cms:
            self.cms += 1
            return {'a': 'cm', 'id': self.cms, 'type': self.scope_type()}
        cid = rng.randint(1, self.cms)
        if r < .8:
            return {'a': 'enter', 'id': cid}
        return {'a': 'exit', 'id': cid, 'exc': rng.choice([None, None, 'ValueError', 'KeyboardInterrupt'])}

    def faults(self, op):
        rng = self.rng
        out = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            n = rng.randint(1, 12) if op['a'] in ('new', 'with') else rng.randint(1, 7)
            out.append({'n': n, 'exc': rng.choice(EXC_NAMES)})
        return out

    def plan(self):
        rng, cfg = self.rng, self.cfg
        classes = self.classes()
        return self.operations({'classes': classes, 'ops': []})

    def operations(self, plan):
        rng, cfg = self.rng, self.cfg
        self.model = World(plan, ModelSide())
        n = rng.randint(*cfg['n_ops'])
        for i in range(n):
            if rng.random() < cfg['scopes']:
                op = self.scope_op()
            elif self.model.side.order and rng.random() < cfg['instance_listeners']:
                o = rng.choice(self.model.side.order)
                specs = self.model.side.specs[self.model.side.objs[o].cls]
                op = {'a': 'reg', 'o': o, 'l': self.listener(specs, len(self.specs))}
            else:
                op = self.op()
            op['i'] = i
            if rng.random() < cfg['faults'] and op['a'] in cfg['fault_ops']:
                op['faults'] = self.faults(op)
            plan['ops'].append(op)
            self.model.run_op(op)
        # afterwards, without faults: close every scope, then use everything once more
        i = n
        if self.cms:
            for cid in sorted(self.model.cm_depth):
                for _ in range(self.model.cm_depth[cid]):
                    op = {'a': 'exit', 'id': cid, 'i': i}
                    plan['ops'].append(op)
                    self.model.run_op(op)
                    i += 1
        for _ in range(cfg.get('probes', 3)):
            saved = dict(cfg)
            cfg['bad'], cfg['bad_kwargs'] = 0.0, 0.0
            op = self.op()
            cfg.update(saved)
            op['i'] = i
            i += 1
            plan['ops'].append(op)
            self.model.run_op(op)
        return plan
