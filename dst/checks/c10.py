"""HasUID graphs: flat documents, crash, restart, reload, damage, retry."""
import json

from .. import core, seams
from ..core import Check, Violation
from ..sim import Injector, attempt, deep, gen_faults, outcome, require, wchoice

REFS = ('child', 'uni')
LISTS = ('kids',)


class World(object):
    def __init__(self, plan, st):
        self.plan, self.st = plan, st
        self.p = seams.load()
        self.inj = Injector(st)
        self.nodes = {}         # uid -> object, everything the program built or loaded
        self.docs = []          # (text, snapshot, root, class index)
        self.boot()

    def boot(self):
        """A fresh process: same class names, empty registries"""
        p, world, opts = self.p, self, self.plan['opts']
        self.nodes = {}
        base = p.extras.HasUID
        reg, inst = {}, {}
        child = p.Instance('c', base, required=False)
        kids = p.Instance('k', base)
        named = p.Instance('n', base)
        ptr = p.extras.Pointer('p', base, required=False)
        lptr = p.extras.Pointer('p', base, load=True, required=False)
        uni = p.Instance('u', base)
        box = p.Instance('b', base, required=False)

        def factory():
            world.inj.cross('a default factory')
            return 1

        def ser(value, **kwargs):
            world.inj.cross('a custom serializer')
            return 'S:' + value

        def deser(value, **kwargs):
            world.inj.cross('a custom deserializer')
            return value[2:]

        def init(self, **kwargs):
            base.__init__(self, **kwargs)
            world.inj.cross('__init__')

        def check(self):
            world.inj.cross('a class validator')
        ns = dict(_REGISTRY=reg, _INSTANCES=inst,
                  value=p.Integer('v', min=0, max=9, required=opts['required'], default=factory)
                  if not opts['required'] else p.Integer('v', min=0, max=9),
                  text=p.String('t', required=False, serializer=ser, deserializer=deser),
                  child=child, kids=p.List('k', kids, default=list, observe_mutations=opts['observe'],
                                           required=False, max_length=4),
                  named=p.Dictionary('n', key_prop=p.String('k'), value_prop=named, default=dict),
                  ptr=ptr, lptr=lptr, uni=p.Union('u', [uni, p.Integer('i')], required=False),
                  check=p.validator(check))
        self.box_cls = type(p.HasProperties)('Box', (p.HasProperties,), dict(
            _REGISTRY={}, inner=box, n=p.Integer('n', default=0)))
        ns['box'] = p.Instance('b', self.box_cls, required=False)
        if opts['init']:
            ns['__init__'] = init
        u0 = type(base)('U0', (base,), ns)
        for pr in (child, kids, named, ptr, lptr, uni, box):
            pr.instance_class = u0
        u1 = type(base)('U1', (u0,), dict(more=p.String('m', default='')))
        self.classes = [u0, u1]
        self.instances = inst

    # -- the harness' own view of an object -----------------------------------
    def describe(self, o):
        """Class and values; references by uid"""
        c = self.classes.index(type(o))
        d = dict(cls=c, value=o.value, text=o.text, child=self.ref(o.child), uni=self.ref(o.uni),
                 kids=[self.ref(k) for k in o.kids or []],
                 named=sorted((k, self.ref(v)) for k, v in (o.named or {}).items()),
                 ptr=self.ref(o.ptr), lptr=self.ref(o.lptr),
                 box=None if o.box is None else [o.box.n, self.ref(o.box.inner)])
        d['ptrobj'] = [o.ptr is not None and not isinstance(o.ptr, str),
                       o.lptr is not None and not isinstance(o.lptr, str)]
        if c == 1:
            d['more'] = o.more
        return d

    def ref(self, v):
        if v is None or isinstance(v, (str, int)):
            return v
        return v.uid

    def edges(self, o):
        """Objects a document of o must contain"""
        out = [o.child] if o.child is not None else []
        if o.uni is not None and not isinstance(o.uni, int):
            out.append(o.uni)
        out += list(o.kids or []) + list((o.named or {}).values())
        if o.box is not None and o.box.inner is not None:
            out.append(o.box.inner)
        for v in (o.ptr, o.lptr):
            if v is not None and not isinstance(v, str):
                out.append(v)
        return out

    def reach(self, root):
        seen, todo = {}, [root]
        while todo:
            o = todo.pop()
            if o.uid in seen:
                require(seen[o.uid] is o, 'identity', 'two objects with uid %r in one graph', o.uid)
                continue
            seen[o.uid] = o
            todo += self.edges(o)
        return seen

    def entry(self, o, include_class):
        e = dict(uid=o.uid, value=o.value, kids=[k.uid for k in o.kids or []],
                 named=dict((k, v.uid) for k, v in (o.named or {}).items()))
        if o.text is not None:
            e['text'] = 'S:' + o.text
        for k in ('child', 'uni', 'ptr', 'lptr'):
            v = getattr(o, k)
            if v is not None:
                e[k] = self.ref(v)
        if o.box is not None:
            e['box'] = dict(n=o.box.n)
            if o.box.inner is not None:
                e['box']['inner'] = o.box.inner.uid
            if include_class:
                e['box']['__class__'] = 'Box'
        if type(o) is self.classes[1]:
            e['more'] = o.more
        if o.value is None:
            e.pop('value')
        if include_class:
            e['__class__'] = type(o).__name__
        return e

    def registry(self):
        return sorted((k, id(v)) for k, v in self.instances.items())

    # -- operations ----------------------------------------------------------
    def do(self, op):
        getattr(self, 'op_' + op['a'])(op)
        self.inj.disarm()

    def pick(self, n):
        keys = sorted(self.nodes)
        return self.nodes[keys[n % len(keys)]] if keys else None

    def op_new(self, op):
        if op['uid'] in self.instances:
            return
        o = self.classes[op['cls']](uid=op['uid'], value=op['value'])
        self.nodes[o.uid] = o

    def op_edge(self, op):
        src, dst = self.pick(op['s']), self.pick(op['t'])
        if src is None:
            return
        k = op['k']
        if k == 'kids':
            src.kids = (list(src.kids or []) + [dst])[-4:]
        elif k == 'named':
            src.named = dict(src.named or {}, **{op['key']: dst})
        elif k in ('ptr', 'lptr'):
            setattr(src, k, dst if op['obj'] else dst.uid)
        elif k == 'box':
            src.box = self.box_cls(n=op['n'], inner=dst) if op['obj'] else self.box_cls(n=op['n'])
        elif k == 'uni' and not op['obj']:
            src.uni = op['n']
        elif k == 'text':
            src.text = 'w%d' % op['n']
        elif k == 'value':
            src.value = op['n'] % 10
        else:
            setattr(src, k, dst)

    def op_save(self, op):
        root = self.pick(op['s'])
        if root is None:
            return
        self.inj.arm(op['i'], op['faults'])
        graph = self.reach(root)
        before = dict((u, self.describe(o)) for u, o in graph.items())
        reg = self.registry()
        status, doc = attempt(lambda: root.serialize(include_class=op['cl']))
        after = dict((u, self.describe(o)) for u, o in graph.items())
        require(before == after and self.registry() == reg, 'save-changed', 'serializing changed an object or the registry')
        if status == 'err':
            self.st.nontrivial = True
            if not self.inj.fired():
                raise Violation('save-failed', 'serializing raised %s' % outcome(doc))
            self.inj.disarm()
            status, doc = attempt(lambda: root.serialize(include_class=op['cl']))
            require(status == 'ok', 'save-failed', 'serializing again after a failure raised %s',
                    outcome(doc) if status == 'err' else None)
        want = dict((u, self.entry(o, op['cl'])) for u, o in graph.items())
        want['__root__'] = root.uid
        require(doc == want, 'document', 'document is %s instead of %s', json.dumps(doc, sort_keys=True, default=repr),
                json.dumps(want, sort_keys=True))
        self.st.log('save', status, sorted(doc))
        self.docs.append((json.dumps(doc), before, root.uid, self.classes.index(type(root))))

    def op_crash(self, op):
        self.st.fault('crash and restart')
        self.st.log('crash')
        self.boot()

    def op_load(self, op):
        if not self.docs:
            return
        text, snap, root, c = self.docs[op['d'] % len(self.docs)]
        clean = json.loads(text)
        doc = json.loads(text)
        kw = dict(trusted=op['trusted'], strict=op['strict'], assert_valid=op['assert_valid'])
        if op['root'] is not None:
            uids = sorted(u for u in clean if u != '__root__')
            kw['root'] = root = uids[op['root'] % len(uids)]
            c = snap[root]['cls']
        if not all('__class__' in clean[u] for u in clean if u != '__root__'):
            kw['trusted'] = False
        trusted = kw['trusted']
        # what is loaded with these flags: closure over instance edges, classes known
        start = c if op['cls'] is None else op['cls']
        plan = closure(snap, root, start, trusted, clean)
        must_fail = plan['mismatch'] and op['strict']
        if op['strict'] and plan['extra']:
            must_fail = True
        taken = [u for u in plan['classes'] if u in self.instances]
        pre = [u for u in clean if u in self.instances]
        if taken:
            must_fail = True
        if op['assert_valid'] and any(
                (snap[u]['value'] is None and self.plan['opts']['required']) or len(snap[u]['kids']) > 4
                for u in plan['classes']):
            must_fail = True
        dmg = self.damage(doc, op['damage'], plan, op, trusted)
        # too many kids: the rest of the graph may no longer be reached
        must_fail = dmg == 'must' or (must_fail and op['damage'] != ['toolong'])
        before_doc = deep(doc)
        before_reg = self.registry()
        before_nodes = dict((u, self.describe(o)) for u, o in self.nodes.items())
        self.inj.arm(op['i'], op['faults'])
        status, out = attempt(lambda: self.classes[start].deserialize(doc, **kw))
        fired = self.inj.fired()
        self.inj.disarm()
        self.st.log('load', root, sorted(plan['classes']), op['damage'], status, outcome(out) if status == 'err' else None)
        require(doc == before_doc, 'document-changed', 'loading changed the document')
        require(before_nodes == dict((u, self.describe(o)) for u, o in self.nodes.items()), 'other-object',
                'loading changed an existing object')
        if status == 'err':
            self.st.nontrivial = True
            if not must_fail and not fired and dmg == 'none' and not taken:
                raise Violation('load-failed', 'loading a sound document raised %s' % outcome(out))
            require(self.registry() == before_reg, 'load-leaked', 'a failed load changed the registry: %s',
                    sorted(set(u for u, _ in self.registry()) ^ set(u for u, _ in before_reg)))
            if pre:
                return
            # the corrected document loads
            kw = dict(trusted=trusted)
            if 'root' in op and op['root'] is not None:
                kw['root'] = root
            status, out = attempt(lambda: self.classes[start].deserialize(clean, **kw))
            require(status == 'ok', 'retry-failed', 'loading the corrected document raised %s',
                    outcome(out) if status == 'err' else None)
        else:
            require(not must_fail, 'damaged-loaded', 'a document that cannot be loaded was accepted: %s', op['damage'])
            if dmg != 'none':
                self.sound(out)
                self.adopt(out)
                return
        self.check_graph(out, snap, root, plan)
        self.adopt(out)
        extra = set(self.instances) - set(plan['classes']) - set(u for u, _ in before_reg)
        require(not extra, 'extra-uid', 'loading registered %d uids that no object of the document has', len(extra))

    def adopt(self, out):
        for u, o in self.reach(out).items():
            self.nodes[u] = o

    def sound(self, out):
        """Whatever a damaged document loads as is valid and registered once"""
        seen, todo = set(), [out]
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            require(o.value is None or (isinstance(o.value, int) and 0 <= o.value <= 9), 'invalid-value',
                    'a damaged document gave value %r', o.value)
            require(o.text is None or isinstance(o.text, str), 'invalid-value', 'a damaged document gave text %r', o.text)
            require(self.instances.get(o.uid) is o, 'registered', 'loaded uid %r is not registered', o.uid)
            todo += self.edges(o)

    def damage(self, doc, kinds, plan, op, trusted):
        """Returns none / may / must (the load has to fail)"""
        verdict = 'none'
        loaded = sorted(plan['classes'])
        done = set()
        for j, d in enumerate(kinds):
            u = loaded[(op['pick'] + j) % len(loaded)]
            entry = doc.get(u)
            if not isinstance(entry, dict):
                return 'must'
            field = {'missing': 'value', 'toolong': 'kids'}.get(d, d)
            if (u, field) in done or (d == 'toolong' and len(kinds) > 1):
                continue    # a second damage could undo the first
            done.add((u, field))
            if d == 'drop':
                if u in self.instances:
                    continue    # the registered object legitimately stands in
                doc.pop(u)
                verdict = 'must'
            elif d == 'value':
                entry['value'] = deep(op['bad'])
                verdict = 'must'
            elif d == 'notdict':
                doc[u] = deep(op['bad'])
                verdict = 'must'
            elif d == 'dangling':
                entry['child'] = 'no-such-uid'
                verdict = 'must'
            elif d == 'kids':
                entry['kids'] = deep(op['bad2'])
                verdict = 'must'
            elif d == 'unknown':
                entry['zzz'] = 1
                if op['strict']:
                    verdict = 'must'
                elif verdict == 'none':
                    verdict = 'none'
            elif d == 'text':
                entry['text'] = 5
                verdict = 'must'
            elif d == 'missing':
                if entry.pop('value', None) is not None:
                    if op['assert_valid'] and self.plan['opts']['required']:
                        verdict = 'must'
                    elif verdict == 'none':
                        verdict = 'may'
            elif d == 'toolong':
                entry['kids'] = [u] * 5
                if op['assert_valid']:
                    verdict = 'must'
                elif verdict == 'none':
                    verdict = 'may'
            elif d == 'root':
                if op['root'] is None and '__root__' in doc:
                    doc.pop('__root__')
                    verdict = 'must'
        return verdict

    def check_graph(self, out, snap, root, plan):
        require(out.uid == root, 'root', 'loaded %r instead of the root %r', out.uid, root)
        met, todo = {}, [out]
        while todo:
            o = todo.pop()
            if o.uid in met:
                require(met[o.uid] is o, 'sharing', 'uid %r was loaded as two objects', o.uid)
                continue
            met[o.uid] = o
            require(o.uid in plan['classes'], 'extra-object', 'uid %r is not part of the document graph', o.uid)
            c = plan['classes'][o.uid]
            require(type(o) is self.classes[c], 'class', 'uid %r was loaded as %s instead of U%d', o.uid, type(o).__name__, c)
            got, want = self.describe(o), dict(snap[o.uid])
            got.pop('ptrobj')
            want.pop('ptrobj')
            want['cls'] = c
            if c == 1:
                want.setdefault('more', '')
            else:
                want.pop('more', None)
            require(got == want, 'values', 'uid %r was loaded as %r instead of %r', o.uid, got, want)
            require(type(o).load(o.uid) is o, 'registered', 'load(%r) does not give the loaded object', o.uid)
            # a loading Pointer may reach an object that already existed
            todo += [x for x in self.edges(o) if (x.uid not in met or met[x.uid] is not x) and
                     not (x is o.lptr and x.uid not in plan['classes'])]
        lost = set(plan['classes']) - set(met)
        require(not lost, 'lost-object', '%d objects of the document were not loaded', len(lost))


def closure(snap, root, start, trusted, doc):
    """Which objects a load has to build, and as which class"""
    classes, todo = {}, [(root, start)]
    mismatch = extra = False
    while todo:
        u, asked = todo.pop(0)
        if u in classes:
            continue
        named = doc[u].get('__class__')
        c = asked
        if named is not None and named != 'U%d' % asked:
            if trusted:
                c = int(named[1])
            else:
                mismatch = True
        classes[u] = c
        d = snap[u]
        if c == 0 and d['cls'] == 1:
            extra = True
        if 'box' in doc[u] and False:
            pass
        todo += [(x, 0) for x in [d['child'], d['uni']] + d['kids'] + [v for _, v in d['named']] +
                 ([d['box'][1]] if d['box'] else []) if isinstance(x, str)]
    return dict(classes=classes, mismatch=mismatch, extra=extra)


class Graphs(core.Scenario):
    name = 'graphs'
    quick = 24000
    thorough = 300000
    batch = 60

    def gen(self, rng, tier):
        opts = dict(required=rng.random() < .4, observe=rng.random() < .3, init=rng.random() < .3)
        big = 6 if tier == 'quick' else 14
        ops, i = [], 0

        def add(a, **kw):
            ops.append(dict(a=a, i=len(ops), **kw))

        def build(n, m):
            for _ in range(n):
                add('new', cls=rng.randint(0, 1), uid='n%d' % rng.randint(0, 30), value=rng.randint(0, 9))
            for _ in range(m):
                k = wchoice(rng, dict(child=5, kids=6, named=3, ptr=2, lptr=2, uni=3, box=3, text=1, value=1))
                add('edge', s=rng.randint(0, 30), t=rng.randint(0, 30), k=k, key=rng.choice(['a', 'b']),
                    obj=rng.random() < .6, n=rng.randint(0, 9))

        def save():
            add('save', s=rng.randint(0, 30), cl=rng.random() < .8, faults=gen_faults(rng, .25, 4))

        def load():
            damage = [rng.choice(['drop', 'value', 'notdict', 'dangling', 'kids', 'unknown', 'text', 'missing',
                                  'toolong', 'root']) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            add('load', d=rng.randint(0, 9), trusted=rng.random() < .7, strict=rng.random() < .25,
                assert_valid=rng.random() < .35, root=rng.randint(0, 9) if rng.random() < .2 else None,
                cls=None if rng.random() < .75 else 0, damage=damage, pick=rng.randint(0, 9),
                bad=rng.choice(['x', -1, 10, [1], 'zz']), bad2=rng.choice([['zz'], [5], 'q', {'a': 'b'}]),
                faults=gen_faults(rng, .3, 10))
        build(rng.randint(1, big), rng.randint(0, big * 2))
        save()
        for _ in range(rng.randint(1, 3 if tier == 'quick' else 8)):
            if rng.random() < .85:
                add('crash')
            for _ in range(rng.randint(1, 2)):
                load()
            if rng.random() < .5:
                build(rng.randint(0, 2), rng.randint(0, 4))
                save()
        return dict(opts=opts, ops=ops)

    def run(self, plan, st):
        w = World(plan, st)
        for op in plan['ops']:
            w.do(op)


CHECK = Check('C10', [Graphs()],
              ['properties.extras.uid (HasUID, Pointer)', 'properties.base', 'Instance/List/Dictionary/Union properties', 'json'],
              ['user serializers, deserializers, factories, __init__, validators (scripted)', 'uuid.uuid4 (seeded)',
               'process restart (fresh classes and registries; only JSON text survives)'],
              'a run counts when a save or load failed (injected exception, damaged or conflicting document); '
              'histories are distinct by sha1 of the event log')
