"""Links between HasProperties and traitlets objects, with failing transforms, targets and listeners."""
import traitlets

from .. import core, seams
from ..core import Check
from ..sim import Injector, attempt, gen_faults, outcome, require, wchoice

INTS = ('a', 'b', 'c')
TRANSFORMS = {
    'inc': lambda v: v + 1, 'dec': lambda v: v - 1, 'neg': lambda v: -v, 'half': lambda v: v // 2,
    'clamp': lambda v: max(-5, min(5, v)), 'const': lambda v: 3, 'text': lambda v: 'x%s' % v,
    'far': lambda v: v + 50, 'wrap': lambda v: [v], 'rev': lambda v: list(reversed(v)),
    'head': lambda v: v[0], 'len': len, 'more': lambda v: list(v) + [1],
}
STEPS = 1500


class TooLong(Exception):
    pass


class Side(object):
    """What both the library and the model do in callbacks"""

    def __init__(self, plan, st):
        self.plan = plan
        self.inj = Injector(st)
        self.log = []
        self.steps = 0
        self.acted = {}

    def start(self, op):
        self.log, self.steps, self.acted = [], 0, {}
        self.inj.arm(op['i'], op.get('faults'))

    def tick(self):
        self.steps += 1
        if self.steps > STEPS:
            raise TooLong()

    def transform(self, lid, name):
        if name is None:
            return None

        def func(value):
            self.tick()
            self.log.append(['transform', lid, name, plain(value)])
            self.inj.cross('a transform')
            return TRANSFORMS[name](value)
        return func

    def fire(self, lid, spec, name, prev, value, mode):
        """A user listener"""
        self.tick()
        self.log.append(['listener', lid, name, plain(prev), plain(value), mode])
        self.inj.cross('a %s listener' % mode)
        n = self.acted.get(lid, 0)
        self.acted[lid] = n + 1
        if n < len(spec['acts']):
            act = spec['acts'][n]
            if act is not None:
                self.set(act['o'], act['p'], act['v'])
        if mode == 'validate':
            if spec['reject'] is not None and value == spec['reject']:
                raise seams.load().ValidationError('no thanks')
            return spec['sub'].get(str(plain(value)))
        return None


def plain(v):
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v if v is None or isinstance(v, (int, str)) else '<%s>' % getattr(v, 'name', type(v).__name__)


class Real(Side):

    def __init__(self, plan, st, h, t):
        Side.__init__(self, plan, st)
        self.p = seams.load()
        self.objs = [(h if kind == 'hp' else t)() for kind in plan['objs']]
        for o, kind in zip(self.objs, plan['objs']):
            if kind == 'tr':
                o.a, o.b, o.l
        self.links = {}

    def set(self, o, p, v):
        setattr(self.objs[o], p, list(v) if isinstance(v, list) else v)

    def mutate(self, o, how, v):
        lst = self.objs[o].l
        if how == 'append':
            lst.append(v)
        elif how == 'pop':
            lst.pop()
        elif how == 'insert':
            lst.insert(0, v)
        elif how == 'setitem':
            lst[0] = v
        elif how == 'iadd':
            self.objs[o].l += [v]
        elif how == 'clear':
            lst.clear()
        elif how == 'extend':
            lst.extend([v, v])

    def listen(self, lid, spec):
        if self.plan['objs'][spec['o']] == 'tr':
            self.objs[spec['o']].observe(
                lambda ch: self.fire(lid, spec, ch['name'], ch['old'], ch['new'], 'trait'), names=spec['p'])
            return

        def func(inst, ch):
            sub = self.fire(lid, spec, ch['name'], ch['previous'], ch['value'], ch['mode'])
            if sub is not None:
                ch['value'] = sub
        if spec['mode'] == 'validate':
            self.p.validator(self.objs[spec['o']], spec['p'], func)
        else:
            self.p.observer(self.objs[spec['o']], spec['p'], func, change_only=spec['mode'] == 'change')

    def item(self, it):
        return (self.objs[it[0]], it[1])

    def dlink(self, lid, src, dst, now, change_only, transform):
        self.links[lid] = self.p.directional_link(
            self.item(src), self.item(dst), update_now=now, change_only=change_only,
            transform=self.transform(lid, transform))

    def group(self, lid, items, now, change_only):
        self.links[lid] = self.p.link(*[self.item(i) for i in items], update_now=now, change_only=change_only)

    def unlink(self, lid):
        self.links[lid].unlink()

    def relink(self, lid):
        self.links[lid].relink()

    def one(self, lid, j, what):
        d = self.links[lid].dlinks[j % len(self.links[lid].dlinks)]
        getattr(d, what)()

    def retarget(self, lid, dst):
        self.links[lid].target = self.item(dst)

    def retransform(self, lid, name):
        self.links[lid].transform = self.transform(lid, name)

    def state(self):
        return [[plain(getattr(o, p)) for p in names(kind)] for o, kind in zip(self.objs, self.plan['objs'])]


def names(kind):
    return ('a', 'b', 'c', 'l') if kind == 'hp' else ('a', 'b', 'l')


UNDEF = '<undefined>'


class MLink(object):
    def __init__(self, side, lid, src, dst, change_only, transform):
        self.side, self.lid, self.src, self.dst, self.change_only = side, lid, src, dst, change_only
        self.transform = transform
        self.off = self.busy = False

    def update(self, *_):
        if self.off or self.busy:
            return
        self.busy = True
        try:
            v = self.side.get(*self.src)
            func = self.side.transform(self.lid, self.transform)
            self.side.set(self.dst[0], self.dst[1], func(v) if func else v)
        finally:
            self.busy = False

    def attach(self):
        o, p = self.src
        if self.side.plan['objs'][o] == 'tr':
            self.side.on(o, p, 'trait', self.update)
        else:
            self.side.on(o, p, 'change' if self.change_only else 'set', self.update)


class Model(Side):
    """Values and listeners; nothing of the library"""

    def __init__(self, plan, st):
        Side.__init__(self, plan, st)
        self.p = seams.load()
        self.vals = [dict(a=0, b=0, l=[]) for _ in plan['objs']]
        self.cbs = {}
        self.links = {}

    def state(self):
        return [[plain(self.vals[o].get(p)) for p in names(kind)] for o, kind in enumerate(self.plan['objs'])]

    def get(self, o, p):
        v = self.vals[o].get(self.real_name(o, p))
        return list(v) if isinstance(v, list) else v

    def real_name(self, o, p):
        return 'a' if p == 'r' else p

    def on(self, o, p, mode, func):
        self.cbs.setdefault((o, p, mode), []).append(func)

    def check(self, kind, p, v):
        bad = self.p.ValidationError if kind == 'hp' else traitlets.TraitError
        def integer(x, lo, hi):
            if not isinstance(x, int) or (lo is not None and x < lo) or (hi is not None and x > hi):
                raise bad('rejected')
        if p == 'l':
            if not isinstance(v, list):
                raise bad('rejected')
            for x in v:
                integer(x, None, 20)
            return list(v)
        integer(v, *((-5, 5) if p == 'b' else (None, None)))
        return v

    def set(self, o, p, v):
        self.tick()
        p = self.real_name(o, p)
        kind = self.plan['objs'][o]
        v = self.check(kind, p, v)
        vals = self.vals[o]
        if kind == 'tr':
            prev = vals[p]
            vals[p] = v
            if prev != v:
                for f in list(self.cbs.get((o, p, 'trait'), ())):
                    f(p, prev, v, 'trait')
            return
        prev = vals.get(p, UNDEF)
        for f in self.cbs.get((o, p, 'validate'), ()):
            sub = f(p, prev, v, 'validate')
            if sub is not None:
                v = sub
        vals[p] = v
        if prev == UNDEF or prev != v:
            for f in self.cbs.get((o, p, 'change'), ()):
                f(p, prev, v, 'observe_change')
        for f in self.cbs.get((o, p, 'set'), ()):
            f(p, prev, v, 'observe_set')

    def mutate(self, o, how, v):
        lst = list(self.vals[o]['l'])
        if how == 'append':
            lst.append(v)
        elif how == 'pop':
            lst.pop()
        elif how == 'insert':
            lst.insert(0, v)
        elif how == 'setitem':
            lst[0] = v
        elif how == 'iadd':
            lst += [v]
        elif how == 'clear':
            lst.clear()
        elif how == 'extend':
            lst.extend([v, v])
        self.set(o, 'l', lst)

    def listen(self, lid, spec):
        kind = self.plan['objs'][spec['o']]
        self.on(spec['o'], spec['p'], 'trait' if kind == 'tr' else spec['mode'],
                lambda *a: self.fire(lid, spec, *a))

    def dlink(self, lid, src, dst, now, change_only, transform):
        m = MLink(self, lid, tuple(src), tuple(dst), change_only, transform)
        if now:
            m.update()
        m.attach()
        self.links[lid] = [m]

    def group(self, lid, items, now, change_only):
        made = []
        try:
            for i, a in enumerate(items):
                for j, b in enumerate(items):
                    if i != j:
                        m = MLink(self, lid, tuple(a), tuple(b), change_only, None)
                        if now:
                            m.update()
                        m.attach()
                        made.append(m)
        except BaseException:
            for m in made:
                m.off = True
            raise
        self.links[lid] = made

    def unlink(self, lid):
        for m in self.links[lid]:
            m.off = True

    def relink(self, lid):
        for m in self.links[lid]:
            m.off = False

    def one(self, lid, j, what):
        self.links[lid][j % len(self.links[lid])].off = what == 'unlink'

    def retarget(self, lid, dst):
        self.links[lid][0].dst = tuple(dst)

    def retransform(self, lid, name):
        self.links[lid][0].transform = name


class Links(core.Scenario):
    name = 'links'
    quick = 24000
    thorough = 800000
    batch = 150

    def gen(self, rng, tier):
        n = rng.choice([2, 2, 3, 3, 4])
        objs = [rng.choice(['hp', 'hp', 'hp', 'tr']) for _ in range(n)]
        objs[0] = 'hp'
        pure = rng.random() < .4
        ops, self_links = [], []

        def add(a, **kw):
            ops.append(dict(a=a, i=len(ops), **kw))

        def item(dom, target=False):
            o = rng.randint(0, n - 1)
            if dom == 'l':
                return [o, 'l']
            choice = ['a', 'a', 'b'] + (['c'] if objs[o] == 'hp' else [])
            if target and objs[o] == 'hp' and rng.random() < .1:
                return [o, 'r']
            return [o, rng.choice(choice)]
        loud = [0]

        def mklink():
            dom = rng.choice(['i', 'i', 'i', 'l'])
            change_only = rng.random() < .8
            lid = len(self_links)
            if rng.random() < (.7 if pure else .35):
                size = rng.choice([2, 2, 3, 3, 4]) if change_only else 2
                items = []
                for _ in range(12):
                    it = item(dom)
                    if it not in items and it[1] != 'r':
                        items.append(it)
                    if len(items) == size:
                        break
                if len(items) < 2:
                    return
                if not change_only:
                    if loud[0] > 2:
                        change_only = True
                    loud[0] += 1
                self_links.append(('group', change_only))
                add('group', l=lid, items=items, now=rng.random() < .35, change_only=change_only,
                    faults=gen_faults(rng, .1, 4))
                return
            src, dst = item(dom), item(dom, True)
            transform = None
            if rng.random() < .45:
                transform = rng.choice(['inc', 'dec', 'neg', 'half', 'clamp', 'const', 'text', 'far', 'wrap']
                                       if dom == 'i' else ['rev', 'more', 'text', 'head', 'len'])
                if transform == 'wrap' or transform in ('head', 'len'):
                    dst = item('l' if transform == 'wrap' else 'i', True)
            if src == dst:
                return
            if not change_only:
                if loud[0] > 2:
                    change_only = True
                loud[0] += 1
            self_links.append(('dir', change_only))
            add('dlink', l=lid, src=src, dst=dst, now=rng.random() < .3, change_only=change_only,
                transform=transform, faults=gen_faults(rng, .1, 4))

        def mklisten():
            o, p = item(rng.choice(['i', 'i', 'l']))
            mode = rng.choice(['set', 'change', 'validate'])
            acts = []
            if not pure:
                acts = [None if rng.random() < .5 else dict(zip('opv', item('i') + [rng.randint(-7, 7)]))
                        for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            sub = {}
            if mode == 'validate' and not pure and p != 'l' and rng.random() < .4:
                sub = {str(k): rng.randint(-5, 5) for k in rng.sample(range(-6, 7), 4)}
            add('listen', l=len(ops), o=o, p=p, mode=mode, acts=acts, sub=sub,
                reject=rng.randint(-3, 3) if mode == 'validate' and p != 'l' and rng.random() < .5 else None)
        for _ in range(rng.randint(1, 3)):
            mklink()
            if rng.random() < .5:
                mklisten()
        for _ in range(rng.randint(3, 9) if tier == 'quick' else rng.randint(3, 25)):
            k = wchoice(rng, dict(set=10, mutate=3, link=1 if len(self_links) < 5 else 0, listen=1, unlink=1, relink=1,
                                  retarget=.5, retransform=.5, one=.4))
            f = gen_faults(rng, .25, 6)
            if k == 'set':
                o, p = item(rng.choice(['i', 'i', 'i', 'l']), True)
                v = rng.choice([-7, -2, 0, 1, 2, 3, 4, 5, 6, 9]) if p != 'l' else \
                    [rng.randint(0, 3) for _ in range(rng.randint(0, 3))]
                if rng.random() < .05:
                    v = 'bad'
                add('set', o=o, p=p, v=v, faults=f)
            elif k == 'mutate':
                hps = [x for x in range(n) if objs[x] == 'hp']
                add('mutate', o=rng.choice(hps), how=rng.choice(['append', 'pop', 'insert', 'setitem', 'iadd',
                                                                'clear', 'extend']),
                    v=rng.choice([0, 1, 2, 21]), faults=f)
            elif k == 'link':
                mklink()
            elif k == 'listen':
                mklisten()
            elif self_links:
                lid = rng.randint(0, len(self_links) - 1)
                if k == 'one' and self_links[lid][0] == 'group':
                    add('one', l=lid, j=rng.randint(0, 11), what=rng.choice(['unlink', 'relink']))
                elif k in ('unlink', 'relink'):
                    add(k, l=lid)
                elif k == 'retarget' and self_links[lid][0] == 'dir':
                    add('retarget', l=lid, dst=item('i', True))
                elif k == 'retransform' and self_links[lid][0] == 'dir':
                    add('retransform', l=lid, t=rng.choice([None, 'inc', 'neg', 'far']))
        return dict(objs=objs, pure=pure, ops=ops)

    def run(self, plan, st):
        p = seams.load()
        h = type(p.HasProperties)('H', (p.HasProperties,), dict(
            _REGISTRY={}, a=p.Integer('a', default=0), b=p.Integer('b', default=0, min=-5, max=5),
            c=p.Integer('c', required=False),
            l=p.List('l', p.Integer('i', max=20), default=list, observe_mutations=True),
            r=p.Renamed('a')))
        t = type(traitlets.HasTraits)('T', (traitlets.HasTraits,), dict(
            a=traitlets.Int(0), b=traitlets.Int(0, min=-5, max=5), l=traitlets.List(traitlets.Int(max=20))))
        real, model = Real(plan, st, h, t), Model(plan, core.Stats())
        for op in plan['ops']:
            if not self.step(op, real, model, plan, st):
                break

    def step(self, op, real, model, plan, st):
        a, lid = op['a'], op.get('l')
        if a in ('unlink', 'relink', 'one', 'retarget', 'retransform'):
            if (lid in real.links) != (lid in model.links):
                require(False, 'link-lost', 'link exists on one side only')
            if lid not in model.links:
                return True
        if a in ('dlink', 'group') and lid in model.links:
            return True
        calls = {
            'set': lambda s: s.set(op['o'], op['p'], op['v']),
            'mutate': lambda s: s.mutate(op['o'], op['how'], op['v']),
            'dlink': lambda s: s.dlink(lid, op['src'], op['dst'], op['now'], op['change_only'], op['transform']),
            'group': lambda s: s.group(lid, op['items'], op['now'], op['change_only']),
            'listen': lambda s: s.listen(op['i'], op),
            'unlink': lambda s: s.unlink(lid), 'relink': lambda s: s.relink(lid),
            'one': lambda s: s.one(lid, op['j'], op['what']),
            'retarget': lambda s: s.retarget(lid, op['dst']),
            'retransform': lambda s: s.retransform(lid, op['t']),
        }
        before = model.state()
        model.start(op)
        try:
            m = attempt(lambda: calls[a](model))
        finally:
            model.inj.disarm()
        if m[0] == 'err' and isinstance(m[1], TooLong):
            st.probe('cascades over %d steps skipped' % STEPS)
            return False
        real.start(op)
        r = attempt(lambda: calls[a](real))
        real.inj.disarm()
        mo = 'ok' if m[0] == 'ok' else outcome(m[1])
        ro = 'ok' if r[0] == 'ok' else outcome(r[1])
        st.log(a, op, ro, real.log, real.state())
        if len(real.log) > 0 or ro != 'ok':
            st.nontrivial = True
        require(real.log == model.log, 'callbacks', '%s called %s instead of %s', a, real.log, model.log)
        require(ro == mo, 'outcome', '%s gave %s instead of %s', a, ro, mo)
        require(real.state() == model.state(), 'values', 'after %s the values are %s instead of %s', a,
                real.state(), model.state())
        if a in ('set', 'mutate') and ro == 'ok' and plan['pure']:
            self.joined(op, real, model, plan, before)
        return True

    def joined(self, op, real, model, plan, before):
        """Stated without the model: a changed member of a link leaves all members equal"""
        prop = 'l' if op['a'] == 'mutate' else model.real_name(op['o'], op['p'])
        x = [op['o'], prop]

        def val(state, it):
            return state[it[0]][names(plan['objs'][it[0]]).index(it[1])]
        now = real.state()
        if val(before, x) == val(now, x):
            return
        for o in plan['ops']:
            if o['a'] == 'group' and o['l'] in model.links and x in o['items']:
                links = model.links[o['l']]
                if any(m.off for m in links):
                    continue
                if all(self.identity(model, it) for it in self.component(plan, o['items'])):
                    vals = [val(now, it) for it in o['items']]
                    require(all(v == vals[0] for v in vals), 'unequal', 'linked values differ: %s', vals)

    @staticmethod
    def component(plan, items):
        """All members of groups that share a member, directly or not"""
        out = [list(it) for it in items]
        for it in out:
            for o in plan['ops']:
                if o['a'] == 'group' and it in o['items']:
                    out += [list(x) for x in o['items'] if list(x) not in out]
        return out

    @staticmethod
    def identity(model, it):
        """No transforming or redirected link leads to this member"""
        return not any(m.dst in (tuple(it), (it[0], 'r')) and (m.transform is not None or len(ms) == 1)
                       for ms in model.links.values() for m in ms)


CHECK = Check('C12', [Links()],
              ['properties.link', 'properties.handlers', 'properties.base', 'observed List properties', 'traitlets'],
              ['transforms and listeners (scripted, failing on demand)'],
              'a run counts when some link, transform or listener callback ran or an operation failed; '
              'histories are distinct by sha1 of the event log')
