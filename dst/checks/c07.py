"""C07: damaged documents are rejected or load validly, with no side effects."""
import json

from .. import core
from ..coreworld import Skip
from ..docworld import DocGen, DocWorld, same
from ..sim import attempt, deep, gen_faults, outcome, require, wchoice
from ..values import dec
from .c06 import common, differ

JUNK = [None, 0, -1, 1.5, '', [], {}, True, False, 'junk', 10 ** 30, 1e400, [None], [[]], {'a': 1}, [1, 2, 3],
        [0.5, 'x'], 'nan', '2020-13-45T99:99:99Z', '2011-06-05T04:03:02Z', 'K0', {'__class__': 'K0'},
        {'__class__': 'K1'}, {'__class__': 'K2'}, {'__class__': 'HasProperties'}, [{'__class__': 'K1'}],
        {'items': [1, 'x']}, 'T', [[1, 2, 3], [4, 5, 6]], [[1, 2], [3]], 'red', '#12345', [255, 0, 0], [300, 0, 0],
        '1+2j', 'up', '\ud800', '1' * 400, -0.0, {'': ''}, [True, 'a', None, {}]]
NAMES = ['_backend', '_props', 'validate', '__init__', '_listeners', 'serialize', '__dict__', 'pa', 'pb', 'pc', 'pd',
         'pe', 'r00', 'd0', '', 'x y', '_get', '__class__', '_instance', 'trusted', 'uid']
CLASSES = ['K0', 'K1', 'K2', 'HasProperties', 'Nobody', '', 5, None, ['K0'], {'K0': 1}, True, 'k0', 'K0 ']


def gen_damage(rng):
    k = rng.choice(['junk'] * 5 + ['drop', 'add', 'add', 'rename', 'swap', 'wrap', 'unwrap', 'text', 'dup', 'graft',
                                   'class', 'class', 'class', 'clear', 'extend'])
    d = {'k': k, 'at': rng.randrange(10 ** 6)}
    if k in ('junk', 'add', 'extend'):
        d['v'] = deep(rng.choice(JUNK)) if rng.random() < .8 else {'copy': rng.randrange(10 ** 6)}
    if k in ('add', 'rename'):
        d['n'] = rng.choice(NAMES)
    if k in ('swap', 'graft', 'dup'):
        d['b'] = rng.randrange(10 ** 6)
    if k == 'class':
        d['v'] = deep(rng.choice(CLASSES))
    return d


def gen_text(rng):
    return {'k': rng.choice(['cut', 'flip', 'flip', 'flip', 'digit', 'digit', 'repeat', 'lose', 'splice']),
            'at': rng.randrange(10 ** 6), 'n': rng.randint(1, 12), 'b': rng.randrange(256)}


def places(doc, out=None, path=()):
    """Every (container, key) of a document, in order"""
    out = [] if out is None else out
    if isinstance(doc, dict):
        for k in list(doc):
            out.append((doc, k))
            places(doc[k], out)
    elif isinstance(doc, list):
        for i in range(len(doc)):
            out.append((doc, i))
            places(doc[i], out)
    return out


def subdicts(doc, out=None):
    out = [] if out is None else out
    if isinstance(doc, dict):
        out.append(doc)
        for v in doc.values():
            subdicts(v, out)
    elif isinstance(doc, list):
        for v in doc:
            subdicts(v, out)
    return out


def damage(doc, d, other):
    """One structural change; returns the document (which may be replaced as a whole)"""
    root = {'doc': doc}
    spots = places(root)
    box, key = spots[d['at'] % len(spots)]
    v = box[key]
    k = d['k']

    def val():
        x = d['v']
        if isinstance(x, dict) and list(x) == ['copy']:
            b, kk = spots[x['copy'] % len(spots)]
            return deep(b[kk])
        return deep(x)
    if k == 'junk':
        box[key] = val()
    elif k == 'drop':
        if box is not root:
            del box[key]
    elif k in ('add', 'class'):
        dicts = subdicts(doc)
        if dicts:
            # mostly shallow ones
            dicts[d['at'] % len(dicts)]['__class__' if k == 'class' else d['n']] = val()
    elif k == 'rename':
        if isinstance(box, dict) and box is not root:
            del box[key]
            box[d['n']] = v
    elif k == 'swap':
        b2, k2 = spots[d['b'] % len(spots)]
        x, y = deep(v), deep(b2[k2])
        b2[k2] = x
        try:
            box[key] = y
        except IndexError:
            pass
    elif k == 'wrap':
        box[key] = [v]
    elif k == 'unwrap':
        if isinstance(v, list) and v:
            box[key] = v[0]
        elif isinstance(v, dict) and v:
            box[key] = v[sorted(v)[0]]
    elif k == 'text':
        box[key] = json.dumps(v) if d['at'] % 2 else str(v)
    elif k == 'dup':
        if isinstance(box, list):
            box.insert(key, deep(v))
    elif k == 'graft':
        theirs = places({'doc': other})
        b2, k2 = theirs[d['b'] % len(theirs)]
        box[key] = deep(b2[k2])
    elif k == 'clear':
        if isinstance(v, (list, dict)):
            box[key] = type(v)()
    elif k == 'extend':
        if isinstance(v, list):
            v.append(val())
    return root['doc']


def damage_text(text, d, other):
    i, k = d['at'] % max(1, len(text)), d['k']
    if k == 'cut':
        return text[:i]
    if k == 'flip':
        return text[:i] + chr(32 + d['b'] % 95) + text[i + 1:]
    if k == 'digit':
        spots = [j for j, c in enumerate(text) if c.isdigit()]
        if not spots:
            return text
        j = spots[d['at'] % len(spots)]
        return text[:j] + '0123456789.e-"'[d['b'] % 14] + text[j + 1:]
    if k == 'repeat':
        return text[:i] + text[i:i + d['n']] + text[i:]
    if k == 'lose':
        return text[:i] + text[i + d['n']:]
    j = d['b'] % max(1, len(other))
    return text[:i] + other[j:]


def fingerprint(v):
    """Tells apart everything json can hold (1, 1.0, True, nan)"""
    if isinstance(v, dict):
        return ['d', [[k, fingerprint(x)] for k, x in v.items()]]
    if isinstance(v, list):
        return ['l', [fingerprint(x) for x in v]]
    return [type(v).__name__, repr(v)]


class Damage(core.Scenario):
    name = 'damage'
    world = DocWorld
    quick = 9000
    thorough = 200000
    batch = 60

    def gen(self, rng, tier):
        g = DocGen(rng, checks=.25, observed=.3, required=.45, dynamic=.2)
        classes = g.classes(rng.randint(1, 3))
        ops, saved = [], {}
        for i in range(rng.randint(2, 4)):
            c = rng.randrange(len(classes))
            ops.append({'i': i, 'a': 'new', 'cls': c,
                        'kwargs': [[n, g.value(s)] for n, s in g.settable(c) if rng.random() < .85]})
            g.labels['o%d' % i] = c
        k = len(ops)
        for i in range(k, k + rng.randint(4, 14) * (3 if tier == 'thorough' and rng.random() < .3 else 1)):
            o = rng.choice(sorted(g.labels))
            op = {'i': i, 'a': 'load', 'o': o, 'as': g.labels[o] if rng.random() < .9 else rng.randrange(len(classes)),
                  'other': rng.choice(sorted(g.labels)), 'damage': [], 'text': [],
                  'flags': {'trusted': rng.random() < .5, 'strict': rng.random() < .5,
                            'assert_valid': rng.random() < .5},
                  'faults': gen_faults(rng, .15), 'direct': rng.random() < .1,
                  'save_dynamic': rng.random() < .15, 'keep': rng.random() < .3}
            r = rng.random()
            if r < .72:
                op['damage'] = [gen_damage(rng) for _ in range(wchoice(rng, {'1': 6, '2': 2, '3': 1}) == '1' and 1 or
                                                               rng.randint(2, 4))]
            elif r < .97:
                op['text'] = [gen_text(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if op['keep']:
                op['set'] = rng.randrange(10 ** 6)
            ops.append(op)
        return {'classes': classes, 'ops': ops}

    def run(self, plan, st):
        w = self.world(plan, st)
        w.saw = []
        for op in plan['ops']:
            w.inj.disarm()
            try:
                getattr(self, 'do_' + op['a'])(w, op, st)
                st.log(op['i'], op['a'], 'done')
            except Skip:
                st.log(op['i'], op['a'], 'skip')
                st.probe('skip.' + op['a'])
            finally:
                w.inj.disarm()
        w.canary()

    def watch(self, w, label, obj):
        def seen(o, change):
            w.saw.append([label, change['name'], change['mode']])
        w.p.observer(obj, w.p.everything)(seen)

    def do_new(self, w, op, st):
        if not all(n in w.specs[op['cls']] for n, _ in op['kwargs']):
            raise Skip()
        kw = dict((n, dec(v, w)) for n, v in op['kwargs'])
        status, r = attempt(lambda: w.classes[op['cls']](**kw))
        if status == 'err':
            if not isinstance(r, ValueError):
                raise r
            return
        if w.size(r) > 150:
            raise Skip()
        w.objs['o%d' % op['i']] = r
        self.watch(w, 'o%d' % op['i'], r)

    def fresh(self, w):
        """What a new object of every class starts with"""
        out = []
        for c in w.classes:
            status, o = attempt(c)
            out.append(w.snap(o) if status == 'ok' else outcome(o)[:1])
        return wild_all(out)

    def do_load(self, w, op, st):
        src = w.obj(op['o'])
        other = w.objs.get(op['other'], src)
        i = op['as']
        K = w.classes[i]
        text = json.dumps(src.serialize(save_dynamic=op['save_dynamic']))
        odoc = json.loads(json.dumps(other.serialize()))
        doc = json.loads(text)
        for d in op['damage']:
            doc = damage(doc, d, odoc)
            st.fault('damage: ' + d['k'])
        if op['text']:
            t = text
            for d in op['text']:
                t = damage_text(t, d, json.dumps(odoc))
                st.fault('text damage: ' + d['k'])
            try:
                doc = json.loads(t)
            except (ValueError, RecursionError):
                st.probe('not json any more')
                raise Skip()
        flags = dict((k, v) for k, v in op['flags'].items() if v)
        clean = not op['damage'] and not op['text'] and w.number[type(src)] == i
        keep = fingerprint(doc)
        bystanders = dict((l, w.snap(o)) for l, o in w.objs.items())
        fresh = self.fresh(w)
        del w.born[:], w.saw[:]
        refuse = flags.get('strict') and w.must_refuse(i, doc, flags.get('trusted'))
        w.inj.arm(op['i'], op['faults'])
        status, r = attempt(lambda: K.deserialize(doc, **flags))
        fired = w.inj.fired()
        w.inj.disarm()
        born = list(w.born)
        st.log('load', status, w.snap(r) if status == 'ok' else outcome(r))
        st.probe('load.' + status)
        if not clean or fired:
            st.nontrivial = True
        require(fingerprint(doc) == keep, 'document-changed', 'deserialize changed the document it was given to %s',
                json.dumps(doc))
        for l, s in bystanders.items():
            require(w.snap(w.objs[l]) == s, 'bystander-changed', 'loading changed object %s: %s -> %s', l,
                    *differ(s, w.snap(w.objs[l])))
        require(not w.saw, 'bystander-notified', 'loading a document notified listeners of other objects: %s', w.saw)
        w.canary()
        fresh2 = self.fresh(w)
        require(fresh2 == fresh, 'defaults-changed', 'new objects start differently after a load: %s -> %s',
                *differ(fresh, fresh2))
        if not flags.get('trusted'):
            allowed = set(w.classes[j] for j in w.reach(i))
            extra = [c.__name__ for c in born if c not in allowed]
            require(not extra, 'untrusted-class', 'an untrusted load as K%d instantiated %s', i, extra)
        else:
            roots, more = set(), {w.chain[i][0]}
            while roots != more:
                roots = more
                more = roots | set(w.chain[k][0] for j in range(len(w.classes)) if w.chain[j][0] in roots
                                   for k in w.reach(j))
            extra = [c.__name__ for c in born if w.chain[w.number[c]][0] not in roots]
            require(not extra, 'foreign-class', 'a load as K%d instantiated %s', i, extra)
        if status == 'ok':
            self.loaded(w, op, st, i, doc, r, flags, refuse)
        elif clean and not fired:
            self.clean_refused(w, src, flags, r, doc)
        # the undamaged document still loads
        status, r2 = attempt(lambda: w.classes[w.number[type(src)]].deserialize(json.loads(text), trusted=True))
        require(status == 'ok', 'clean-refused', 'after a damaged one, the undamaged document raised %s',
                outcome(r2) if status == 'err' else None)
        if not op['save_dynamic']:
            require(same(w.expected(src), w.snap(r2)), 'clean-differs',
                    'after a damaged one, the undamaged document of %s loaded as %s',
                    *differ(w.expected(src), w.snap(r2)))
        w.canary()

    def clean_refused(self, w, src, flags, err, doc):
        if flags.get('strict') and not flags.get('trusted') and not w.exact_obj(src):
            return
        if flags.get('assert_valid'):
            flags = dict(flags)
            del flags['assert_valid']
            status, obj = attempt(lambda: type(src).deserialize(deep(doc), **flags))
            require(status == 'ok', 'clean-refused', 'an undamaged document raised %s', outcome(err))
            require(not w.valid(obj), 'clean-refused', 'an undamaged document of a valid object raised %s', outcome(err))
            return
        if not flags.get('trusted') and not w.exact_obj(src):
            return
        require(False, 'clean-refused', 'an undamaged document raised %s', outcome(err))

    def loaded(self, w, op, st, i, doc, r, flags, refuse):
        trusted = flags.get('trusted', False)
        want, mismatch = w.output_class(i, doc.get('__class__') if isinstance(doc, dict) else None, trusted)
        require(isinstance(doc, dict), 'loaded-junk', 'deserialize made an object of %s', json.dumps(doc))
        require(type(r) is w.classes[want], 'wrong-class', 'a load as K%d (%s) of a document of class %s gave a %s',
                i, flags, json.dumps(doc.get('__class__')), type(r).__name__)
        bad = []
        require(w.held_obj(r, trusted, bad), 'invalid-held', 'loading %s (%s) gave an object holding invalid %s',
                json.dumps(doc), flags, bad or w.snap(r))
        require(not refuse, 'strict-accepted', 'a strict load (%s) as K%d accepted %s', flags, i, json.dumps(doc))
        if flags.get('assert_valid'):
            require(w.valid(r), 'invalid-returned', 'assert_valid returned an invalid %s from %s', w.snap(r),
                    json.dumps(doc))
            status, v = attempt(r.validate)
            require(status == 'ok', 'invalid-returned', 'assert_valid returned an object whose validate raises %s', v)
        shared = common(w, doc, r) if not w.untyped() else []
        require(not shared, 'document-shares-state', 'the loaded object shares state with the document: %s', shared)
        for l, o in w.objs.items():
            shared = common(w, r, o)
            require(not shared, 'shares-state', 'the loaded object shares state with %s: %s', l, shared)
        # it works: what it holds can be saved and assigned again
        status, again = attempt(r.serialize)
        require(status == 'ok', 'cannot-save', 'a loaded %s cannot be serialized: %s', w.snap(r), again)
        json.dumps(again)
        for n, s in sorted(w.specs[w.number[type(r)]].items()):
            v = r._get(n)
            if v is None or s.get('frozen') or s['t'] == 'uuid':
                continue
            status, e = attempt(lambda: setattr(r, n, v))
            require(status == 'ok', 'not-assignable', 'the loaded value %s of %s is refused on assignment: %s',
                    w.snap(v), n, e)


def wild_all(v):
    if isinstance(v, list):
        return ['uuid', '*'] if v[:1] == ['uuid'] else [wild_all(x) for x in v]
    return v


CHECK = core.Check(
    'C07', [Damage()],
    real=['properties deserialize of every JSON-representable property type with all flag combinations; json'],
    stub=['damage: seeded structural and textual changes of real documents',
          'custom deserializers, class validators, observers, default factories: scripted, with injected exceptions'],
    rule='a run counts when a damaged document reached deserialize or an injected exception was raised; '
         'histories are distinct by sha1 of the full event log')
