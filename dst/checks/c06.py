"""C06: what serialize() wrote comes back unchanged after a crash and restart."""
import json

from .. import core
from ..coreworld import Skip
from ..docworld import DocGen, DocWorld, same
from ..sim import attempt, deep, gen_faults, outcome, require, wchoice
from ..values import dec, enc


class SimCrash(BaseException):
    """The process dies here"""


class Disk(object):
    """One directory: what is written is volatile until fsync, a rename is
    volatile until the directory is synced; a crash may tear what is volatile."""

    def __init__(self, st):
        self.st = st
        self.durable = {}       # name -> text on disk
        self.names = {}         # durable directory: name -> content key
        self.files = {}         # volatile view: name -> [text, durable length]

    def write(self, name, text):
        self.files[name] = [text, 0]

    def fsync(self, name):
        self.files[name][1] = len(self.files[name][0])

    def rename(self, a, b):
        self.files[b] = self.files.pop(a)

    def sync_dir(self):
        self.durable = dict((n, (t, k)) for n, (t, k) in self.files.items())

    def crash(self, keep):
        """keep: how much of an unsynced file survives (0..1)"""
        view = dict(self.durable)
        self.files = {}
        for n, (t, k) in view.items():
            # fsynced data survives; the rest of the file may be torn
            cut = k + int((len(t) - k) * keep)
            self.files[n] = [t[:cut], cut]
        self.durable = dict((n, (t, k)) for n, (t, k) in self.files.items())
        self.st.fault('crash with unsynced data')

    def read(self, name):
        f = self.files.get(name)
        return None if f is None else f[0]


class Persist(core.Scenario):
    name = 'persist'
    world = DocWorld
    quick = 15000
    thorough = 400000
    batch = 60

    def gen(self, rng, tier):
        g = DocGen(rng, checks=.15)
        classes = g.classes(rng.randint(1, 3))
        ops = []
        n = rng.randint(5, 14) * (3 if tier == 'thorough' and rng.random() < .3 else 1)
        saved = {}
        for i in range(n):
            kinds = dict(new=5)
            if g.labels:
                kinds.update(set=5, delete=1.5, reset=1, nested=2, mutate=3, save=6, copy=2, twin=2)
            if saved:
                kinds.update(load=4, restart=1.5)
            k = wchoice(rng, kinds)
            op = {'i': i, 'a': k}
            if k == 'new':
                c = rng.randrange(len(classes))
                op.update(cls=c, kwargs=[[n_, g.value(s)] for n_, s in g.settable(c) if rng.random() < .7])
                g.labels['o%d' % i] = c
            elif k == 'restart':
                op.update(keep=rng.random())
                g.labels = {}
            elif k == 'load':
                slot = rng.choice(sorted(saved))
                op.update(slot=slot, flags=self.flags(rng), faults=gen_faults(rng, .25))
                g.labels['o%d' % i] = saved[slot]
            else:
                o = rng.choice(list(g.labels)[-5:])
                c = g.labels[o]
                op['o'] = o
                props = g.settable(c)
                if k in ('set', 'delete', 'reset', 'nested', 'mutate') and not props:
                    op['a'] = k = 'twin'
                if k == 'set':
                    n_, s = rng.choice(props)
                    before = g.labels
                    g.labels = dict((l, cc) for l, cc in before.items() if self.age(l) < self.age(o))
                    op.update(p=n_, v=g.value(s))
                    g.labels = before
                elif k in ('delete', 'reset'):
                    op.update(p=rng.choice(props)[0])
                elif k == 'nested':
                    op.update(pick=rng.randrange(1000), seed=rng.randrange(10 ** 6))
                elif k == 'mutate':
                    op.update(pick=rng.randrange(1000), how=rng.choice(['add', 'clear', 'pop', 'copy', 'reverse']),
                              seed=rng.randrange(10 ** 6))
                elif k == 'save':
                    slot = rng.choice(['s0', 's1', 's2'])
                    op.update(slot=slot, kw=self.kw(rng), faults=gen_faults(rng, .2),
                              crash=rng.choice([None] * 8 + [0, 1, 2, 3, 4]), keep=rng.random())
                    saved[slot] = c
                    if op['crash'] is not None:
                        g.labels = {}
                elif k == 'copy':
                    g.labels['o%d' % i] = c
                elif k == 'twin':
                    op.update(kw=self.kw(rng), flags=self.flags(rng), poke=rng.randrange(1000),
                              faults=gen_faults(rng, .2))
            ops.append(op)
        return {'classes': classes, 'ops': ops}

    @staticmethod
    def age(label):
        return int(label[1:])

    def flags(self, rng):
        return {'trusted': rng.random() < .7, 'strict': rng.random() < .4, 'assert_valid': rng.random() < .4}

    def kw(self, rng):
        kw = {}
        if rng.random() < .25:
            kw['include_class'] = rng.random() < .5
        if rng.random() < .25:
            kw['save_dynamic'] = rng.random() < .7
        return kw

    # -- run ---------------------------------------------------------------------

    def run(self, plan, st):
        w = self.world(plan, st)
        self.disk = disk = Disk(st)
        committed = {}
        for op in plan['ops']:
            w.inj.disarm()
            try:
                getattr(self, 'do_' + op['a'])(w, op, st, disk, committed)
                st.log(op['i'], op['a'], 'ok')
            except Skip:
                st.log(op['i'], op['a'], 'skip')
                st.probe('skip.' + op['a'])
            except SimCrash:
                st.log(op['i'], 'crash')
                self.restart(w, disk, op['keep'], st)
            finally:
                w.inj.disarm()
        # whatever happened, everything committed can be read after a last restart
        self.restart(w, disk, 0, st)
        for slot in sorted(committed):
            self.load(w, committed, slot, {'trusted': True}, st, disk)
        w.canary()

    def restart(self, w, disk, keep, st):
        disk.crash(keep)
        w.objs = {}
        w.build()
        st.probe('restarts')

    def keep(self, w, op, obj):
        w.objs['o%d' % op['i']] = obj

    def do_new(self, w, op, st, disk, committed):
        if not all(n in w.specs[op['cls']] for n, _ in op['kwargs']):
            raise Skip()
        kw = dict((n, dec(v, w)) for n, v in op['kwargs'])
        status, r = attempt(lambda: w.classes[op['cls']](**kw))
        if status == 'err':
            if not isinstance(r, ValueError):
                raise r
            st.probe('construction refused')
            return
        self.keep(w, op, r)

    def do_set(self, w, op, st, disk, committed):
        o, v = w.obj(op['o']), dec(op['v'], w)
        if op['p'] not in w.specs[w.number[type(o)]]:
            raise Skip()
        status, r = attempt(lambda: setattr(o, op['p'], v))
        if status == 'err' and not isinstance(r, ValueError):
            raise r

    def do_delete(self, w, op, st, disk, committed):
        o = w.obj(op['o'])
        if op['p'] not in w.specs[w.number[type(o)]]:
            raise Skip()
        delattr(o, op['p'])

    def do_reset(self, w, op, st, disk, committed):
        o = w.obj(op['o'])
        if op['p'] not in w.specs[w.number[type(o)]]:
            raise Skip()
        o._reset(op['p'])

    def nested(self, w, o):
        """Objects inside o, in a repeatable order"""
        out, seen = [], set()

        def walk(v):
            if isinstance(v, w.p.HasProperties):
                if id(v) in seen:
                    return
                seen.add(id(v))
                out.append(v)
                for n in sorted(w.specs[w.number[type(v)]]):
                    walk(v._get(n))
            elif isinstance(v, (list, tuple)):
                for x in v:
                    walk(x)
            elif isinstance(v, dict):
                for k in sorted(v, key=repr):
                    walk(v[k])
        walk(o)
        return out[1:]

    def plain_gen(self, w, seed):
        import random
        g = DocGen(random.Random(seed))
        g.specs = w.specs
        g.classes_ = w.plan['classes']
        g.depth = 1
        return g

    def do_nested(self, w, op, st, disk, committed):
        inner = self.nested(w, w.obj(op['o']))
        if not inner:
            raise Skip()
        x = inner[op['pick'] % len(inner)]
        g = self.plain_gen(w, op['seed'])
        props = g.settable(w.number[type(x)])
        if not props:
            raise Skip()
        n, s = props[op['pick'] % len(props)]
        v = dec(g.plainvalue(s) or ['none'], w)
        if v is None:
            raise Skip()
        status, r = attempt(lambda: setattr(x, n, v))
        if status == 'err' and not isinstance(r, ValueError):
            raise r
        st.probe('nested object changed')

    def do_mutate(self, w, op, st, disk, committed):
        o = w.obj(op['o'])
        i = w.number[type(o)]
        pool = []
        for n, s in sorted(w.specs[i].items()):
            v = o._get(n)
            if v is not None and s['t'] in ('list', 'set', 'dict') and not s.get('frozen'):
                pool.append((v, s))
                if s['t'] == 'list' and s.get('item') and s['item']['t'] in ('list', 'dict', 'set'):
                    pool += [(x, s['item']) for x in v]
        if not pool:
            raise Skip()
        v, s = pool[op['pick'] % len(pool)]
        g = self.plain_gen(w, op['seed'])
        how = op['how']
        if how == 'clear':
            act = v.clear
        elif how == 'pop':
            if not v:
                raise Skip()
            act = (lambda: v.popitem()) if s['t'] == 'dict' else (lambda: v.remove(sorted(v, key=repr)[0])) \
                if s['t'] == 'set' else (lambda: v.pop())
        elif how == 'reverse' and s['t'] == 'list':
            act = v.reverse
        else:
            from .. import values as V

            def one(spec):
                if spec is None:
                    return 5
                if w._classes_in(spec) and spec['t'] != 'inst':
                    raise Skip()
                if spec['t'] == 'inst':
                    kw = g.kwargs(spec['cls'], g.rng)
                    return w.classes[spec['cls']](**dict(dec(kw, w)))
                if V.has_array(spec):
                    raise Skip()
                t = g.plainvalue(spec)
                if t is None:
                    raise Skip()
                return V.coerce(spec, dec(t, w), None, 'x')
            status, it = attempt(lambda: one(s.get('value') if s['t'] == 'dict' else s.get('item')))
            if status == 'err':
                raise Skip()
            if s['t'] == 'list':
                act = lambda: v.append(it)
            elif s['t'] == 'set':
                act = lambda: v.add(it)
            else:
                status, key = attempt(lambda: one(s['key']) if s.get('key') else 'k')
                if status == 'err':
                    raise Skip()
                act = lambda: v.__setitem__(key, it)
        status, r = attempt(act)
        if status == 'err' and not isinstance(r, ValueError):
            raise r
        st.probe('container changed in place')

    # saving ---------------------------------------------------------------------

    def serialize(self, w, o, kw, faults, st, opid):
        """The document of an unfaulted serialize, after a faulted one"""
        before = w.snap(o)
        if faults:
            w.inj.arm(opid, faults)
            status, r = attempt(lambda: o.serialize(**kw))
            fired = w.inj.fired()
            w.inj.disarm()
            st.log('faulted', status, outcome(r) if status == 'err' else None)
            if fired:
                st.nontrivial = True
                require(status == 'err' or not any(
                    type(e) is not TypeError and e._site == 'a serializer' for e in fired), 'lost-exception',
                        'an exception raised by a serializer did not reach the caller of serialize')
            require(w.snap(o) == before, 'failed-save-changed-object',
                    'a failed serialize changed the object: %s -> %s', before, w.snap(o))
        status, doc = attempt(lambda: o.serialize(**kw))
        require(status == 'ok', 'cannot-save', 'serialize raised %s: %s', type(doc).__name__, doc)
        require(w.snap(o) == before, 'save-changed-object', 'serialize changed the object: %s -> %s', before, w.snap(o))
        status, text = attempt(lambda: json.dumps(doc, allow_nan=False))
        require(status == 'ok', 'not-json', 'json cannot dump the document of %s: %s', before, text)
        status, again = attempt(lambda: o.serialize(**kw))
        require(status == 'ok' and json.dumps(again) == text, 'unstable-document',
                'a second serialize gives another document: %s then %s', text, again)
        shared = common(w, doc, o)
        require(not shared, 'document-shares-state', 'the document shares mutable state with the object: %s', shared)
        shared = common(w, doc, again)
        require(not shared, 'documents-share-state', 'two documents share mutable state: %s', shared)
        return doc, text

    def usable(self, w, o, kw, flags):
        """Which flags a document of o saved with kw can be loaded with"""
        exact = w.exact_obj(o)
        named = kw.get('include_class', True)
        if not named and (not exact or w.unions_of_instances(w.number[type(o)])):
            return None
        f = dict(flags)
        if not exact:
            f['trusted'] = True
        return f

    def do_save(self, w, op, st, disk, committed):
        o = w.obj(op['o'])
        kw = op['kw']
        try:
            doc, text = self.serialize(w, o, kw, op['faults'], st, op['i'])
        finally:
            w.inj.disarm()
        f = self.usable(w, o, kw, {'trusted': False})
        if f is None:
            raise Skip()
        record = dict(cls=w.number[type(o)], snap=w.expected(o), text=text, untrusted=not f['trusted'],
                      valid=attempt(o.validate)[0] == 'ok' and w.valid(o))
        step, crash = 0, op['crash']

        def point():
            if crash is not None and step == crash:
                raise SimCrash()
        tmp = op['slot'] + '.tmp'
        point()
        disk.write(tmp, text)
        step = 1
        point()
        disk.fsync(tmp)
        step = 2
        point()
        disk.rename(tmp, op['slot'])
        step = 3
        point()
        disk.sync_dir()
        committed[op['slot']] = record
        step = 4
        point()
        st.probe('saved')

    def do_restart(self, w, op, st, disk, committed):
        self.restart(w, disk, op['keep'], st)
        st.nontrivial = True

    def do_load(self, w, op, st, disk, committed):
        if op['slot'] not in committed:
            raise Skip()
        obj = self.load(w, committed, op['slot'], op['flags'], st, disk, op['faults'], op['i'])
        self.keep(w, op, obj)

    def load(self, w, committed, slot, flags, st, disk, faults=(), opid='end'):
        rec = committed[slot]
        text = disk.read(slot)
        require(text is not None, 'harness-disk', 'the simulated disk lost a synced file')
        flags = dict(flags)
        if not rec['untrusted']:
            flags['trusted'] = True
        if not rec['valid']:
            flags.pop('assert_valid', None)
        doc = json.loads(text)
        return self.check_load(w, doc, rec['cls'], rec['snap'], flags, st, faults, opid, text)

    def check_load(self, w, doc, cls, want, flags, st, faults, opid, text):
        K = w.classes[cls]
        flags = dict((k, v) for k, v in flags.items() if v)
        if flags.pop('assert_valid', False):
            # defaults may fill in what makes (or stops) it valid
            status, obj = attempt(lambda: K.deserialize(deep(doc), **flags))
            if status == 'ok' and w.valid(obj):
                flags['assert_valid'] = True
        if faults:
            keep = deep(doc)
            w.inj.arm(opid, faults)
            status, r = attempt(lambda: K.deserialize(doc, **flags))
            fired = w.inj.fired()
            w.inj.disarm()
            st.log('faulted load', status, outcome(r) if status == 'err' else None)
            if fired:
                st.nontrivial = True
            elif status == 'err':
                require(False, 'cannot-load', 'deserialize(%s) of %s raised %s: %s', flags, text, type(r).__name__, r)
            require(doc == keep, 'load-changed-document', 'deserialize changed its input document')
        status, obj = attempt(lambda: K.deserialize(doc, **flags))
        require(status == 'ok', 'cannot-load', 'deserialize(%s) of %s raised %s: %s', flags, text,
                type(obj).__name__ if status == 'err' else '', obj)
        require(json.loads(text) == doc, 'load-changed-document', 'deserialize changed its input document')
        require(type(obj) is K, 'wrong-class', 'loaded a %s from the document of a %s', type(obj).__name__, K.__name__)
        got = w.snap(obj)
        require(same(want, got), 'not-restored', 'saved %s, loaded %s', *differ(want, got))
        shared = common(w, doc, obj)
        require(not shared, 'document-shares-state', 'the loaded object shares mutable state with the document: %s', shared)
        # serializing again: the same document, plus defaults of what was not set
        kw = {} if '__class__' in doc else {'include_class': False}
        status, again = attempt(lambda: obj.serialize(**kw))
        require(status == 'ok', 'cannot-save', 'serialize of a loaded object raised %s: %s', type(again).__name__, again)
        dyn = set(w.renames[cls]) | set(w.dynamics[cls])
        a = w.norm_doc(cls, json.loads(text))
        b = w.norm_doc(cls, json.loads(json.dumps(again)))
        if not has_any(a, w):
            require(w.extends(a, b, cls), 'another-document', 'document %s, after loading %s', json.dumps(a, sort_keys=True),
                    json.dumps(b, sort_keys=True))
        second = attempt(lambda: K.deserialize(json.loads(json.dumps(again)), trusted=True, **{}))
        if '__class__' in doc:
            require(second[0] == 'ok', 'cannot-load', 'the document of a loaded object does not load: %s', second[1])
            want = w.expected(obj)
            require(same(want, w.snap(second[1])), 'not-restored', 'saved %s, second load %s',
                    *differ(want, w.snap(second[1])))
            c = w.norm_doc(cls, json.loads(json.dumps(second[1].serialize())))
            require(b == c, 'another-document', 'document %s, after loading %s', b, c)
        st.probe('loaded')
        return obj

    def do_copy(self, w, op, st, disk, committed):
        o = w.obj(op['o'])
        before = w.snap(o)
        want = w.expected(o)
        status, c = attempt(lambda: w.p.copy(o))
        require(status == 'ok', 'cannot-copy', 'copy raised %s: %s', type(c).__name__, c)
        require(w.snap(o) == before, 'copy-changed-source', 'copying changed the source')
        require(type(c) is type(o) and same(want, w.snap(c)), 'bad-copy', 'copied %s, got %s', *differ(want, w.snap(c)))
        shared = common(w, c, o)
        require(not shared, 'copy-shares-state', 'a copy shares mutable state with its source: %s', shared)
        self.keep(w, op, c)

    def do_twin(self, w, op, st, disk, committed):
        """Serialize and load in memory; then the document is changed in place"""
        o = w.obj(op['o'])
        kw = op['kw']
        doc, text = self.serialize(w, o, kw, op['faults'], st, op['i'])
        flags = self.usable(w, o, kw, op['flags'])
        if flags is None:
            raise Skip()
        if not (attempt(o.validate)[0] == 'ok' and w.valid(o)):
            flags.pop('assert_valid', None)
        # through json: keys become strings, as in a file
        obj = self.check_load(w, json.loads(text), w.number[type(o)], w.expected(o), flags, st, (), op['i'], text)
        before = w.snap(o)
        loaded = w.snap(obj)
        poke(doc, op['poke'])
        require(w.snap(o) == before, 'document-shares-state', 'changing a document changed the object')
        require(w.snap(obj) == loaded, 'document-shares-state', 'changing a document changed the loaded object')


def has_any(doc, w):
    """A document with renamed or dynamic keys says more than the next one will"""
    extra = set(k for r in w.renames for k in r) | set(k for d in w.dynamics for k in d)

    def walk(d):
        if isinstance(d, dict):
            return any(k in extra for k in d) or any(walk(v) for v in d.values())
        if isinstance(d, list):
            return any(walk(v) for v in d)
        return False
    return walk(doc)


def poke(doc, n):
    """Change every container of a document in place"""
    if isinstance(doc, dict):
        for v in list(doc.values()):
            poke(v, n)
        if n % 3 == 0:
            doc.clear()
        doc['poked'] = n
    elif isinstance(doc, list):
        for v in doc:
            poke(v, n)
        if n % 2 == 0:
            del doc[:]
        doc.append('poked')


def containers(w, v, out=None):
    """id -> kind of every mutable container (or array, or object) reachable"""
    out = {} if out is None else out
    if isinstance(v, w.p.HasProperties):
        if id(v) in out:
            return out
        out[id(v)] = type(v).__name__
        for x in list(v._backend.values()):
            containers(w, x, out)
    elif isinstance(v, (list, set, dict)):
        if id(v) in out:
            return out
        out[id(v)] = type(v).__name__
        for x in (v.values() if isinstance(v, dict) else v):
            containers(w, x, out)
    elif isinstance(v, tuple):
        for x in v:
            containers(w, x, out)
    elif hasattr(v, 'dtype') and hasattr(v, 'base'):
        out[id(v)] = 'array'
        if v.base is not None:
            out[id(v.base)] = 'array memory'
    return out


def common(w, a, b):
    x, y = containers(w, a), containers(w, b)
    return sorted(x[k] for k in x if k in y)


def differ(a, b, path=''):
    """The first place where two snapshots part"""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and a and b and a[0] == b[0] or \
            isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and a and isinstance(a[0], list):
        for x, y in zip(a, b):
            if x != y:
                p = path + ('.%s' % a[0] if isinstance(a[0], str) else '')
                return differ(x, y, p)
    return '%s%s' % (path, json.dumps(a)[:300]), '%s%s' % (path, json.dumps(b)[:300])


CHECK = core.Check(
    'C06', [Persist()],
    real=['properties serialize / deserialize / copy of every JSON-representable property type, classes, defaults, '
          'renamed, dynamic, immutable and uuid properties; json from the standard library'],
    stub=['disk: a simulated directory with volatile writes, fsync, rename and torn unsynced data',
          'custom serializers, deserializers, default factories: scripted, with injected exceptions',
          'process crash and restart: objects dropped and the classes built anew; uuid.uuid4 and random: seeded'],
    rule='a run counts when the process restarted or an injected exception was raised; '
         'histories are distinct by sha1 of the full event log')
