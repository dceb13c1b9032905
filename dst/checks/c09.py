"""uid registry: constructions, renames, claims that fail, re-entrancy."""
from .. import core, seams
from ..core import Check, Violation
from ..sim import Injector, attempt, gen_faults, outcome, require, wchoice

UIDS = ['u1', 'u2', 'u3', 'u4']
SITES = {'val': 'a set validator', 'obs': 'an observer', 'chg': 'a change observer', 'init': '__init__',
         'ival': 'an instance validator', 'iobs': 'an instance observer'}


class World(object):
    def __init__(self, plan, st):
        self.plan, self.st = plan, st
        self.p = seams.load()
        self.inj = Injector(st)
        self.objs = []
        self.partial = []
        self.stale = {0: set(), 1: set()}
        self.fuel = 0
        self.nested = 0
        self.claiming = []
        p, world = self.p, self
        base = p.extras.HasUID

        def handler(kind, deco, names):
            def func(self, change):
                world.callback(self, kind, change['name'], change['value'])
            return deco(func)

        def factory():
            world.inj.cross('a default factory')
            return 3
        buddy = p.extras.Pointer('b', base, load=True, required=False)
        ns = dict(_INSTANCES={}, _REGISTRY={}, value=p.Integer('v', min=0, max=9, default=0),
                  other=p.Integer('o', default=factory),
                  buddy=buddy)
        opts = plan['opts']
        if 'val' in opts['on']:
            ns['_l1'] = handler('val', p.validator(['uid', 'value']), None)
        if 'obs' in opts['on']:
            ns['_l2'] = handler('obs', p.observer(['uid', 'value']), None)
        if 'init' in opts['on']:
            def init(self, **kwargs):
                base.__init__(self, **kwargs)
                world.callback(self, 'init', None, None)
            ns['__init__'] = init
        u0 = type(base)('U0', (base,), ns)
        buddy.instance_class = u0
        ns1 = dict(extra=p.String('e', default=''))
        if 'chg' in opts['on']:
            ns1['_l3'] = handler('chg', p.observer('uid', change_only=True), None)
        if 'val1' in opts['on']:
            ns1['_l4'] = handler('val', p.validator(p.everything), None)
        u1 = type(base)('U1', (u0,), ns1)
        u2 = type(base)('U2', (u0,), dict(_INSTANCES={}))
        self.classes = [u0, u1, u2]

    def reg(self, obj):
        return 1 if self.classes.index(type(obj)) == 2 else 0

    def callback(self, obj, kind, name, value):
        if self.known(obj) is None and all(o is not obj for o in self.partial):
            self.partial.append(obj)
        self.st.log('cb', kind, name)
        self.inj.cross(SITES[kind])
        validating = kind in ('val', 'ival') and name == 'uid'
        if validating:
            self.claiming.append((obj, value))
        try:
            for act in self.plan['acts']:
                if act['on'] != kind or (act['name'] != name and name is not None) or self.fuel <= 0:
                    continue
                self.fuel -= 1
                status, out = attempt(lambda: self.act(act))
                if status == 'err' and not act['catch']:
                    raise out
        finally:
            if validating:
                self.claiming.pop()

    def act(self, act):
        # a uid is not claimed again, nor an object renamed, in the validate phase of that very claim
        uid = dict((k, v) for k, v in act['kwargs']).get('uid') if act['a'] == 'new' else act['uid']
        if any(v == uid for _, v in self.claiming):
            return
        if act['a'] == 'new':
            self.nested += 1
            self.st.probe('nested operations in listeners')
            self.new(act['cls'], act['kwargs'])
        elif self.objs:
            o = self.objs[act['o'] % len(self.objs)]
            if any(x is o for x, _ in self.claiming):
                return
            self.nested += 1
            self.st.probe('nested operations in listeners')
            self.rename(o, act['uid'])

    def known(self, obj):
        for i, o in enumerate(self.objs):
            if o is obj:
                return i
        return None

    def holder(self, reg, uid, but=None):
        for o in self.objs:
            if o is not but and self.reg(o) == reg and o.uid == uid:
                return o
        return None

    def new(self, c, kwargs):
        obj = self.classes[c](**dict((k, v) for k, v in kwargs))
        self.objs.append(obj)
        return obj

    def rename(self, obj, uid):
        old = obj.uid
        try:
            obj.uid = uid
        finally:
            if obj.uid != old and old is not None:
                self.stale[self.reg(obj)].add(old)

    def invariants(self):
        seen = {}
        for i, o in enumerate(self.objs):
            uid = o.uid
            if uid is None:
                continue
            r = self.reg(o)
            require((r, uid) not in seen, 'duplicate-uid', 'objects %s and %s both have uid %r', seen.get((r, uid)), i, uid)
            seen[(r, uid)] = i
            got = type(o).load(uid)
            require(got is o, 'load', 'load(%r) gives %s instead of object %d', uid,
                    'nothing' if got is None else 'object %s' % self.known(got), i)

    def snapshot(self):
        return [(o.uid, o.value, o.other) for o in self.objs]

    def do(self, op):
        kind = op['a']
        self.inj.arm(op['i'], op.get('faults'))
        self.fuel, self.nested = 3, 0
        before = self.snapshot()
        target = None
        claim = None
        if kind == 'new':
            kw = dict((k, v) for k, v in op['kwargs'])
            reg = 1 if op['cls'] == 2 else 0
            claim = kw.get('uid')
            taken = claim is not None and self.holder(reg, claim) is not None
            valid = (('uid' not in kw) or isinstance(claim, str)) and set(kw) <= {'uid', 'value', 'other', 'buddy'} and \
                (isinstance(kw.get('value', 0), int) and 0 <= kw.get('value', 0) <= 9)
            free = not taken and claim not in self.stale[reg]
            status, out = attempt(lambda: self.new(op['cls'], op['kwargs']))
            if not self.nested:
                if status == 'ok':
                    require(valid and not taken, 'claim-accepted', 'constructing with %r succeeded although the uid is taken '
                            'or an argument is invalid', op['kwargs'])
                    require(claim is None or out.uid == claim, 'uid', 'asked for uid %r, got %r', claim, out.uid)
                elif valid and free and not self.inj.fired():
                    raise Violation('construction-failed', 'valid construction %r raised %s' % (op['kwargs'], outcome(out)))
        elif kind in ('rename', 'del', 'reset', 'value', 'buddy', 'listen'):
            if not self.objs:
                return
            target = self.objs[op['o'] % len(self.objs)]
            reg = self.reg(target)
            if kind == 'rename':
                claim = op['uid']
                taken = self.holder(reg, claim, target) is not None
                old = target.uid
                status, out = attempt(lambda: self.rename(target, claim))
                if not self.nested:
                    if status == 'ok':
                        require(isinstance(claim, str) and not taken, 'claim-accepted', 'uid %r was taken twice', claim)
                        require(target.uid == claim, 'uid', 'uid is %r after setting %r', target.uid, claim)
                    elif isinstance(claim, str) and not taken and not self.inj.fired() and \
                            (claim not in self.stale[reg] or claim == old):
                        raise Violation('rename-failed', 'setting free uid %r raised %s' % (claim, outcome(out)))
                    if status == 'err' and taken:
                        require(target.uid == old, 'uid', 'a refused uid was set')
            elif kind == 'value':
                status, out = attempt(lambda: setattr(target, 'value', op['v']))
            elif kind == 'listen':
                world = self
                deco = self.p.validator if op['mode'] == 'ival' else self.p.observer
                deco(target, ['uid', 'value'], lambda self, ch: world.callback(self, op['mode'], ch['name'], ch['value']))
                status = 'ok'
            elif kind == 'buddy':
                # a Pointer that loads: finds the object registered under the uid
                want = self.holder(0, op['uid'])
                status, out = attempt(lambda: setattr(target, 'buddy', op['uid']))
                if status == 'ok' and not self.nested and want is not None:
                    require(target.buddy is want, 'pointer', 'Pointer to %r holds %r', op['uid'], target.buddy)
            else:
                old = target.uid
                if kind == 'del':
                    status, out = attempt(lambda: delattr(target, 'uid'))
                else:
                    status, out = attempt(lambda: target._reset('uid'))
                if target.uid != old and old is not None:
                    self.stale[reg].add(old)
        failed = status == 'err'
        self.st.log(kind, op.get('kwargs'), op.get('uid'), status, outcome(out) if failed else None,
                    [s[0] for s in self.snapshot()])
        if failed:
            self.st.nontrivial = True
        if not self.nested:
            now = self.snapshot()
            for i, (b, n) in enumerate(zip(before, now)):
                if self.objs[i] is not target:
                    require(b == n, 'other-object', 'object %d changed from %r to %r', i, b, n)
        self.inj.disarm()
        self.fuel = 0
        self.invariants()
        if failed and isinstance(claim, str):
            # the uid is available again, unless an object that exists holds it or held it
            if self.holder(reg, claim) is None and claim not in self.stale[reg]:
                c = 2 if reg else op.get('retry', 0) % 2
                s2, o2 = attempt(lambda: self.new(c, [['uid', claim]]))
                require(s2 == 'ok', 'uid-leaked', 'uid %r is no longer available after a failed claim: %s', claim,
                        outcome(o2) if s2 == 'err' else None)
                self.st.log('retry', claim)
                self.invariants()


def gen_kwargs(rng, bad):
    kw = []
    if rng.random() < .8:
        kw.append(['uid', rng.choice(UIDS) if rng.random() >= bad * .3 else rng.choice([5, None, 'u9'])])
    if rng.random() < .5:
        kw.append(['value', rng.randint(0, 9) if rng.random() >= bad else rng.choice([10, 'x'])])
    if rng.random() < bad * .3:
        kw.append(['nosuch', 1])
    if rng.random() < .3:
        kw.append(['other', 2])
    rng.shuffle(kw)
    return kw


class Histories(core.Scenario):
    name = 'histories'
    quick = 40000
    thorough = 500000
    batch = 100

    def gen(self, rng, tier):
        on = [k for k in ('val', 'obs', 'chg', 'val1', 'init') if rng.random() < .4]
        acts = []
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            a = dict(a=rng.choice(['new', 'rename']), on=rng.choice(sorted(SITES)), name=rng.choice(['uid', 'value']),
                     catch=rng.random() < .6, cls=rng.randint(0, 2), kwargs=gen_kwargs(rng, .1),
                     o=rng.randint(0, 5), uid=rng.choice(UIDS))
            acts.append(a)
        ops = []
        for i in range(rng.randint(3, 12 if tier == 'quick' else 30)):
            kind = wchoice(rng, {'new': 9, 'rename': 6, 'del': 1.5, 'reset': 1, 'value': 2, 'buddy': 2, 'listen': 2})
            op = dict(a=kind, i=i, o=rng.randint(0, 7), retry=rng.randint(0, 1))
            if kind == 'new':
                op['cls'] = rng.randint(0, 2)
                op['kwargs'] = gen_kwargs(rng, .25)
            elif kind in ('rename', 'buddy'):
                op['uid'] = rng.choice(UIDS + ['u5']) if rng.random() < .9 else 7
            elif kind == 'value':
                op['v'] = rng.choice([1, 2, 11])
            elif kind == 'listen':
                op['mode'] = rng.choice(['ival', 'iobs'])
            if kind != 'listen':
                op['faults'] = gen_faults(rng, .4)
            ops.append(op)
        return dict(opts=dict(on=on), acts=acts, ops=ops)

    def run(self, plan, st):
        w = World(plan, st)
        for op in plan['ops']:
            w.do(op)


CHECK = Check('C09', [Histories()],
              ['properties.extras.uid', 'properties.base', 'properties.handlers', 'properties.basic'],
              ['user listeners, __init__ and default factories (scripted)', 'uuid.uuid4 (seeded)'],
              'a run counts when a construction, rename or deletion failed (injected exception, taken uid or invalid '
              'input); histories are distinct by sha1 of the event log')
