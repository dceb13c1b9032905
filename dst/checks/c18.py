"""C18: renamed and dynamic properties are views.

views: histories against the reference model of the core world.
twins: the same history lived twice in two fresh sets of classes, once by the
new names and once, at random places (keywords, documents, nested documents,
assignments, links), by the old names; everything seen must agree, except that
each access by an old name warns once for every renaming it passes."""
import json
import re
import warnings

from .. import core
from ..core import Check
from ..corecheck import REAL, RULE, STUB, CoreScenario, claims_c18
from ..coregen import config
from ..coreworld import Skip
from ..docworld import DocGen, DocWorld
from ..sim import attempt, gen_faults, outcome, require, wchoice
from ..values import dec

UUID = re.compile('[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}')


FORMS = ('int', 'float', 'str', 'bool', 'choice', 'color', 'dt', 'complex')


class TwinWorld(DocWorld):
    """A document world whose old names warn"""

    def make(self, index, cs, specs):
        p = self.p
        cls = super(TwinWorld, self).make(index, cs, specs)
        for old, _ in cs.get('renamed', []):
            cls._props[old].warn = True
        for old in self.own_form(index, cs):
            # an old name that keeps its old form in documents
            new = cls._props[old]
            while isinstance(new, p.Renamed):
                new = cls._props[new.new_name]
            self.forms(cls._props[old], new)
        return cls

    @staticmethod
    def forms(prop, new):
        prop.serializer = lambda v: {'old': new.serialize(v)}
        prop.deserializer = lambda v: new.deserialize(v['old'])

    def own_form(self, i, cs=None):
        out = []
        for old in (cs or self.plan['classes'][i]).get('forms', []):
            n = old
            while n in self.renames[i]:
                n = self.renames[i][n]
            spec = self.specs[i].get(n)
            if old in self.renames[i] and spec and spec['t'] in FORMS and not spec.get('ser') and not spec.get('frozen'):
                out.append(old)
        return out

    def form(self, i, n, v):
        """What a value looks like in a document, under n"""
        forms = [old for c in self.chain[i] for old in self.own_form(c)]
        while n in self.renames[i]:
            if n in forms:
                return {'old': v}
            n = self.renames[i][n]
        return v

    def names(self, i):
        """{name: [(old name, renamings passed)]} of class i"""
        out = {}
        for old in self.renames[i]:
            n, hops = old, 0
            while n in self.renames[i]:
                n, hops = self.renames[i][n], hops + 1
            out.setdefault(n, []).append((old, hops))
        return out


class Twins(core.Scenario):
    name = 'twins'
    quick = 9000
    thorough = 200000
    batch = 60

    def gen(self, rng, tier):
        g = DocGen(rng, renamed=.9, dynamic=.5, observed=.5, checks=.15, required=.2)
        classes = g.classes(rng.randint(1, 3))
        for cs in classes:
            cs['forms'] = [old for old, _ in cs.get('renamed', []) if rng.random() < .3]
        ops, docs = [], []
        n = rng.randint(5, 14) * (3 if tier == 'thorough' and rng.random() < .3 else 1)
        for i in range(n):
            kinds = dict(new=5)
            if g.labels:
                kinds.update(set=5, delete=2, get=1, save=4, copy=1, link=1, validate=1, equal=2)
            if docs:
                kinds.update(load=7)
            k = wchoice(rng, kinds)
            op = {'i': i, 'a': k, 'faults': gen_faults(rng, .2), 'old': rng.randrange(10 ** 6)}
            if k == 'new':
                c = rng.randrange(len(classes))
                op.update(cls=c, kwargs=[[n_, g.value(s, 'bad' if rng.random() < .06 else 'ok')]
                                         for n_, s in g.settable(c) if rng.random() < .7])
                if rng.random() < .05:
                    op['kwargs'].insert(rng.randint(0, len(op['kwargs'])), ['nosuch', ['i', '1']])
                g.labels['o%d' % i] = c
            elif k == 'load':
                j, c = rng.choice(docs)
                op.update(doc=j, cls=c, flags=dict((f, True) for f in ('trusted', 'strict', 'assert_valid') if rng.random() < .4),
                          how=rng.choice(['old', 'old', 'both', 'bad', 'dyn']))
                g.labels['o%d' % i] = c
            else:
                o = rng.choice(list(g.labels)[-5:])
                op['o'] = o
                if k in ('link', 'equal'):
                    op['o2'] = rng.choice(list(g.labels)[-5:])
                props = g.settable(g.labels[o])
                if k in ('set', 'delete', 'get', 'link') and not props:
                    op['a'] = k = 'validate'
                if k in ('set', 'delete', 'get', 'link'):
                    n_, s = rng.choice(props)
                    op['p'] = n_
                    if k == 'set':
                        op['v'] = g.value(s, 'bad' if rng.random() < .15 else 'ok')
                elif k == 'save':
                    docs.append((i, g.labels[o]))
                    op['kw'] = {'save_dynamic': rng.random() < .6}
                elif k == 'copy':
                    g.labels['o%d' % i] = g.labels[o]
            ops.append(op)
        return {'classes': classes, 'ops': ops}

    # -- run -----------------------------------------------------------------------

    def run(self, plan, st):
        plan2 = json.loads(json.dumps(plan))
        a, b = TwinWorld(plan, st), TwinWorld(plan2, core.Stats())
        a.docs, b.docs = {}, {}
        old_filters, old_show = warnings.filters[:], warnings.showwarning
        count = [0]

        def show(message, category, *_, **__):
            if issubclass(category, FutureWarning) and 'is deprecated and may be removed' in str(message):
                count[0] += 1
        warnings.simplefilter('always')
        warnings.showwarning = show
        try:
            for op in plan['ops']:
                seen = []
                for w, old in ((a, False), (b, True)):
                    w.inj.disarm()
                    del w.events[:]
                    count[0] = 0
                    w.hops = 0
                    try:
                        r = getattr(self, 'do_' + op['a'])(w, op, old)
                    except Skip:
                        r = ['skip']
                    finally:
                        w.inj.disarm()
                    if w.inj.fired():
                        st.nontrivial = True
                    seen.append([r, list(w.events), self.state(w)])
                    if old:
                        if w.hops:
                            st.nontrivial = True
                            st.probe('%s by an old name' % op['a'])
                        if r[0] == 'ok':
                            require(count[0] - before == w.hops, 'warnings', '%s by old names gave %d warnings instead of %d',
                                    op['a'], count[0] - before, w.hops)
                    else:
                        before = count[0]
                st.log(op['i'], op['a'], seen[0][0], seen[0][1])
                for what, x, y in zip(('outcome', 'notifications', 'state'), *seen):
                    require(x == y, what, '%s by the old names: %s %s instead of %s', op['a'], what,
                            json.dumps(y)[:600], json.dumps(x)[:600])
        finally:
            warnings.filters[:] = old_filters
            warnings.showwarning = old_show

    def state(self, w):
        return [[l, no_uuid(w.snap(w.objs[l]))] for l in sorted(w.objs)] if sum(
            w.size(o) for o in w.objs.values()) < 400 else []

    def faulty(self, w, op, call):
        w.inj.arm(op['i'], op['faults'])
        status, r = attempt(call)
        w.inj.disarm()
        if status == 'err':
            return outcome(r), None
        return ['ok'], r

    def pick(self, w, i, n, op, k=0):
        """An old name for n in class i, if there is one and the dice say so"""
        pool = w.names(i).get(n, [])
        x = (op['old'] // 7 ** (k % 5) + k) % (len(pool) + 1) if pool else 0
        if not x:
            return n
        old, hops = pool[x - 1]
        w.hops += hops
        return old

    def known(self, w, o, n):
        if n not in w.specs[w.number[type(o)]]:
            raise Skip()

    def keep(self, w, op, r):
        if w.size(r) < 150:
            w.objs['o%d' % op['i']] = r

    def do_new(self, w, op, old):
        c = op['cls']
        if not all(n in w.specs[c] for n, _ in op['kwargs'] if n != 'nosuch'):
            raise Skip()
        kw = {}
        for k, (n, v) in enumerate(op['kwargs']):
            kw[self.pick(w, c, n, op, k) if old else n] = dec(v, w)
        out, r = self.faulty(w, op, lambda: w.classes[c](**kw))
        if r is not None:
            self.keep(w, op, r)
        return out

    def do_set(self, w, op, old):
        o = w.obj(op['o'])
        self.known(w, o, op['p'])
        v = dec(op['v'], w)
        n = self.pick(w, w.number[type(o)], op['p'], op) if old else op['p']
        before = o._backend.get(op['p'])
        out, _ = self.faulty(w, op, lambda: setattr(o, n, v))
        if w.size(o) > 150:
            o._backend[op['p']] = before
        return out

    def do_delete(self, w, op, old):
        o = w.obj(op['o'])
        self.known(w, o, op['p'])
        n = self.pick(w, w.number[type(o)], op['p'], op) if old else op['p']
        out, _ = self.faulty(w, op, lambda: delattr(o, n))
        return out

    def do_get(self, w, op, old):
        o = w.obj(op['o'])
        self.known(w, o, op['p'])
        n = self.pick(w, w.number[type(o)], op['p'], op) if old else op['p']
        out, r = self.faulty(w, op, lambda: getattr(o, n))
        if out[0] == 'ok':
            require(r is o._backend.get(op['p']), 'another-value', 'reading %s gave another value than the one held', n)
        return out + [no_uuid(w.snap(r))]

    def do_link(self, w, op, old):
        """The target of a link, once"""
        o, o2 = w.obj(op['o']), w.obj(op['o2'])
        self.known(w, o, op['p'])
        if o is o2 or type(o) is not type(o2) or w.size(o) + w.size(o2) > 100:
            raise Skip()
        if o2._get(op['p']) is None or w.specs[w.number[type(o)]][op['p']]['t'] in ('inst', 'union', 'list', 'tuple', 'dict'):
            raise Skip()
        n = self.pick(w, w.number[type(o)], op['p'], op) if old else op['p']
        made = []

        def call():
            if w.hops:
                with warnings.catch_warnings():     # (making a link looks at both of its ends)
                    warnings.simplefilter('ignore')
                    made.append(w.p.directional_link((o2, op['p']), (o, n)))
            else:
                made.append(w.p.directional_link((o2, op['p']), (o, n)))
            setattr(o2, op['p'], o2._get(op['p']))      # (unchanged: nothing is transferred)
            made[0]._update()
        try:
            out, _ = self.faulty(w, op, call)
        finally:
            for l in made:
                l.unlink()
        return out

    def do_validate(self, w, op, old):
        return self.faulty(w, op, w.obj(op['o']).validate)[0]

    def do_equal(self, w, op, old):
        o, o2 = w.obj(op['o']), w.obj(op['o2'])
        out, r = self.faulty(w, op, lambda: w.p.equal(o, o2))
        return out + [bool(r)]

    def do_copy(self, w, op, old):
        o = w.obj(op['o'])
        out, r = self.faulty(w, op, lambda: w.p.copy(o))
        if r is not None:
            self.keep(w, op, r)
        return out

    def do_save(self, w, op, old):
        o = w.obj(op['o'])
        out, doc = self.faulty(w, op, lambda: o.serialize(**op['kw']))
        if doc is None:
            return out
        if op['kw']['save_dynamic']:
            # what an old name saves is what the new one saves
            i = w.number[type(o)]
            names = w.names(i)
            for n in names:
                for a, _ in names[n]:
                    there = doc.get(a)
                    if there is not None and w.form(i, a, 0) != 0:
                        st_, there = attempt(lambda: there['old'])
                        require(st_ == 'ok' and len(doc[a]) == 1, 'document', 'saved under %s: %s', a, doc[a])
                    require(w.norm_doc(i, {n: there}) == w.norm_doc(i, {n: doc.get(n)}),
                            'document', 'saved under the old name %s: %s, under %s: %s', a, doc.get(a), n, doc.get(n))
        status, text = attempt(lambda: json.dumps(doc))
        if status == 'ok':
            w.docs[op['i']] = (w.number[type(o)], json.dumps(new_names(w, doc)))
        return out + [UUID.sub('*', json.dumps(in_order(w.norm_doc(w.number[type(o)], doc)))) if status == 'ok' else None]

    def do_load(self, w, op, old):
        if op['doc'] not in w.docs:
            raise Skip()
        i, text = w.docs[op['doc']]
        doc = json.loads(text)
        for n in list(doc):
            if n in w.dynamics[i] and (op['how'] != 'dyn' or old):
                del doc[n]
        flags = op['flags']
        if op['how'] == 'both':
            op = dict(op, faults=[])        # (the loads take different numbers of steps)
        if op['how'] == 'bad':
            keys = [k for k in doc if k != '__class__']
            if keys:
                doc[keys[op['old'] % len(keys)]] = [7, None, 'bad', {'a': 1}, [], True][op['old'] // 7 % 6]
        if not flags.get('trusted') and op['cls'] != i:
            raise Skip()
        if op['how'] != 'dyn':
            doc = self.rename(w, i, doc, op, [0], old)
        cls = w.classes[i if flags.get('trusted') else op['cls']]
        given = json.dumps(doc)
        out, r = self.faulty(w, op, lambda: cls.deserialize(doc, **flags))
        require(json.dumps(doc) == given, 'document-changed', 'loading changed the document')
        if r is not None:
            self.keep(w, op, r)
            return out + [no_uuid(w.snap(r))]
        return out

    def rename(self, w, i, doc, op, k, old):
        """The document with some keys replaced by old names of theirs"""
        out = {}
        for n, v in doc.items():
            spec = w.specs[i].get(n)
            if spec is None or spec.get('frozen') or spec['t'] == 'uuid':
                out[n] = v
                continue
            k[0] += 1
            name = self.pick(w, i, n, op, k[0]) if old else n
            v = self.inside(w, spec, v, op, k, old)
            if op['how'] == 'both' and name != n:
                out[n] = v
            out[name] = w.form(i, name, v)
        return out

    def inside(self, w, spec, v, op, k, old):
        if spec is None or spec.get('ser') or op['how'] == 'bad':
            return v
        if spec['t'] == 'inst' and isinstance(v, dict) and op['how'] != 'both':
            return self.rename(w, spec['cls'], v, op, k, old)
        if spec['t'] in ('list', 'tuple') and isinstance(v, list):
            return [self.inside(w, spec.get('item'), x, op, k, old) for x in v]
        if spec['t'] == 'dict' and isinstance(v, dict):
            return dict((n, self.inside(w, spec.get('value'), x, op, k, old)) for n, x in v.items())
        return v


def new_names(w, v):
    if isinstance(v, dict):
        old = w.renames[int(v['__class__'][1:])] if re.match('K[0-9]+$', str(v.get('__class__'))) else ()
        return dict((k, new_names(w, x)) for k, x in v.items() if k not in old)
    if isinstance(v, list):
        return [new_names(w, x) for x in v]
    return v


def in_order(v):
    if isinstance(v, dict):
        return ['d', sorted(([repr(k), in_order(x)] for k, x in v.items()), key=repr)]
    if isinstance(v, list):
        return [in_order(x) for x in v]
    return v


def no_uuid(v):
    if isinstance(v, list):
        return ['uuid', '*'] if v[:1] == ['uuid'] else [no_uuid(x) for x in v]
    return v


CHECK = Check('C18', [
    CoreScenario('views', config(renamed=.75, dynamic=.7, insts=0.0, faults=.25, bad=.25, listeners=(0, 2),
                                 n_props=(1, 3), weights=dict(get=12, set=12, delete=6, keys=2, mut=2, mutraw=3)),
                 claims_c18, 9000, 400000),
    Twins(),
], REAL, STUB, RULE)
