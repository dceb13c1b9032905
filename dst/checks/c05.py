"""validate() over object graphs, with failing validators and hooks."""
from .. import core
from ..core import Check, Violation
from ..graphworld import GraphWorld, Junk, Ref, gen_graph, gen_rules, gen_set
from ..sim import GENERIC, attempt, gen_faults, outcome, require, wchoice

OK, VE, GEN, EITHER = 'ok', 'VE', 'other', 'either'


def worst(kinds):
    """One property or container: it stops at the first failure"""
    kinds = set(kinds) - {OK}
    if not kinds:
        return OK
    return kinds.pop() if len(kinds) == 1 else EITHER


def combined(kinds):
    """One object: a ValidationError if any failure is one"""
    kinds = set(kinds) - {OK}
    for k in (VE, EITHER, GEN):
        if k in kinds:
            return k
    return OK


class Truth(object):
    """Is an object valid, by the record alone; validators are judged by their rule"""

    def __init__(self, world, silent):
        self.w = world
        self.silent = silent        # set-validators are disabled
        self.memo = {}

    def object(self, k, path):
        if k in path:
            return OK
        path = path + (k,)
        key = frozenset(path), k
        if key in self.memo:
            return self.memo[key]
        out = [self.prop(k, name, path) for name in self.w.props(k)]
        out += self.validators(k)
        self.memo[key] = combined(out)
        return self.memo[key]

    def rules(self, k):
        w = self.w
        out = list(w.rules[0])
        if w.nodes[k].__class__ is w.classes[1]:
            out += w.rules[1]
        return out

    def validators(self, k):
        out = []
        for r in self.rules(k):
            if r['on'] is None and (r['k'] is None or self.w.vals[k].get('n') == r['k']):
                out.append(VE if r['do'] in ('VE', 'False') else GEN)
        return out

    def prop(self, k, name, path):
        w = self.w
        v = w.vals[k].get(name)
        if v is None:
            if name == 'n' or (name == 'must' and w.plan['opts']['must']):
                return VE
            return OK
        if w.gates[k] and not self.silent:
            hit = [r for r in self.rules(k) if r['on'] == name and w.matches(r, v)]
            kinds = [GEN if r['do'] in ('KeyError', 'AttributeError') else VE for r in hit]
            if kinds and all(r['do'] == 'sub' for r in hit):
                # a validator that runs later sees the substitute
                subs = sum(r['do'] == 'sub' for r in self.rules(k) if r['on'] == name)
                later = any(w.matches(r, (v + d) % 10) for r in self.rules(k) for d in range(1, subs + 1)
                            if r['on'] == name and r['do'] != 'sub')
                return EITHER if later else VE
            if kinds:
                # validators run in order and the first that raises decides; a substitution may hide a later one
                return worst(kinds) if len(set(kinds)) == 1 and not any(r['do'] == 'sub' for r in hit) else EITHER
        return self.held(name, v, path)

    def held(self, name, v, path):
        if name in ('n', 's', 'q'):
            return OK
        if name == 'nums':
            if any(isinstance(x, Junk) or not 0 <= x <= 9 for x in v) or len(v) > 3:
                return VE
            return OK
        if name == 'uni':
            if isinstance(v, Ref):
                return OK if self.object(v.k, path) == OK else VE
            return OK
        if isinstance(v, Ref):
            return self.object(v.k, path)
        items = list(v.values()) if name == 'tab' else list(v)
        if name == 'deep':
            flat = [x for y in items for x in y]
        else:
            flat = items
        if any(isinstance(x, Junk) for x in flat):
            return VE
        if name == 'many' and not self.w.plan['opts']['min'] <= len(v) <= 3:
            return VE
        return worst(self.object(x.k, path) for x in flat)


class Graphs(core.Scenario):
    name = 'graphs'
    world = GraphWorld
    quick = 24000
    thorough = 800000
    batch = 150

    def gen(self, rng, tier):
        ops = []

        def add(a, **kw):
            ops.append(dict(a=a, i=len(ops), **kw))
        n = gen_graph(rng, tier, add)
        for _ in range(rng.randint(0, n * 3)):
            p, v = gen_set(rng, n)
            add('set', o=rng.randint(0, n - 1), p=p, v=v)
        if rng.random() < .7:
            for o in range(n):
                add('set', o=o, p='must', v=[rng.randint(0, n - 1)])
        add('validate', o=0, silent=False, faults=[])
        for _ in range(rng.randint(2, 8) if tier == 'quick' else rng.randint(2, 24)):
            k = wchoice(rng, dict(set=4, delete=1.5, mutate=4, gate=2, validate=8))
            o = rng.randint(0, n - 1)
            if k == 'set':
                p, v = gen_set(rng, n)
                add('set', o=o, p=p, v=v)
            elif k == 'delete':
                add('delete', o=o, p=rng.choice(['n', 'one', 'many', 'must', 's', 'uni', 'tab']))
            elif k == 'mutate':
                add('mutate', o=o, p=rng.choice(['many', 'tab', 'deep', 'nums', 'many']),
                    how=rng.choice(['node', 'node', 'junk', 'drop', 'drop']), v=rng.randint(0, 11))
            elif k == 'gate':
                add('gate', o=o, on=rng.random() < .6)
            else:
                add('validate', o=o if rng.random() < .6 else 0, silent=rng.random() < .1, faults=gen_faults(rng, .4, 12))
        rare = rng.random() < .5
        return dict(opts=dict(min=rng.choice([0, 0, 0, 1]), must=rng.random() < .8),
                    rules=gen_rules(rng, .25 if rare else .5), ops=ops)

    def run(self, plan, st):
        w = self.world(plan, st)
        for op in plan['ops']:
            a = op['a']
            if a == 'new':
                w.new(op['cls'], op['n'])
                continue
            if not w.nodes:
                continue
            o = w.node(op['o'])
            if a == 'set':
                w.set(o, op['p'], op['v'])
            elif a == 'delete':
                w.delete(o, op['p'])
            elif a == 'mutate':
                w.mutate(o, op['p'], op['how'], op['v'])
            elif a == 'gate':
                w.gates[o] = w.nodes[o].gate = op['on']
            else:
                self.validate(w, op, o, st)
        w.check_record()

    def validate(self, w, op, o, st):
        first = self.once(w, op, o, st, op['faults'])
        if first:
            self.once(w, op, o, st, [])

    def once(self, w, op, o, st, faults):
        p, root = w.p, w.nodes[o]
        before = w.snapshot()
        del w.hooks[:], w.hook_raised[:]
        w.inj.arm(op['i'], faults)
        if op['silent']:
            def call():
                with p.validators_disabled():
                    return root.validate()
        else:
            call = root.validate
        status, out = attempt(call)
        fired = w.inj.fired()
        w.inj.disarm()
        truth = Truth(w, op['silent'])
        want = truth.object(o, ())
        got = out if status == 'ok' else outcome(out)
        st.log('validate', o, want, got, [[e._kind, e._marker] for e in fired],
               [(w.index(h), [(w.index(i) if i is not None else None, pr) for i, pr in ts]) for h, ts in w.hooks])
        require(w.snapshot() == before, 'value-changed', 'validate() changed a value')
        if want != OK or fired:
            st.nontrivial = True
        hooks = [ts for h, ts in w.hooks if h is root]
        if status == 'ok':
            require(out is True, 'not-true', 'validate() returned %r', out)
            require(want == OK, 'accepted-invalid', 'validate() returned True for an invalid object')
            require(not fired, 'swallowed', 'validate() returned True although %s', [outcome(e) for e in fired])
            require(not hooks, 'hook', 'the error hook was called by a successful validate()')
            return False
        if not fired:
            require(want != OK, 'rejected-valid', 'validate() raised %s for a valid object', got)
            is_ve = isinstance(out, p.ValidationError)
            require(isinstance(out, GENERIC), 'error-type', 'validate() raised %s', got)
            if want == VE:
                require(is_ve, 'error-type', 'validate() raised %s although a failure is a ValidationError', got)
            elif want == GEN:
                require(not is_ve and type(out) in (KeyError, TypeError, AttributeError), 'error-type',
                        'validate() raised %s, which no failure is', got)
            if is_ve:
                self.reported(w, o, out, truth)
            require(len(hooks) == (1 if is_ve else 0), 'hook', 'the error hook was called %d times', len(hooks))
            if is_ve:
                require(hooks[0] == [(t.instance, t.prop) for t in out.error_tuples], 'hook',
                        'the error hook was given other errors than those raised')
            return False
        # a callback raised
        stop = [e for e in fired if not isinstance(e, GENERIC)]
        if stop:
            require(out is stop[0], 'error-lost', 'validate() raised %s instead of the %s of a callback', got, stop[0]._kind)
        elif w.hook_raised and out is w.hook_raised[-1]:
            pass
        elif any(isinstance(e, p.ValidationError) for e in fired) and not w.hook_raised:
            require(isinstance(out, p.ValidationError), 'error-type', 'validate() raised %s although a validator raised '
                    'a ValidationError', got)
        else:
            require(isinstance(out, p.ValidationError) or out in fired or want in (GEN, EITHER, VE), 'error-type',
                    'validate() raised %s', got)
        require(len(hooks) <= 1, 'hook', 'the error hook was called %d times', len(hooks))
        return True

    def reported(self, w, o, err, truth):
        root = w.nodes[o]
        told = set()
        for t in err.error_tuples:
            require(t.instance is None or w.index(t.instance) is not None, 'report', 'an unknown object is reported')
            if t.instance is root and t.prop is not None:
                told.add(t.prop)
        for name in w.props(o):
            kind = truth.prop(o, name, (o,))
            v = w.vals[o].get(name)
            if kind == VE:
                inner = w.reach(w.refs(v)) - {o} if v is not None else set()
                require(name in told or any(w.index(t.instance) in inner for t in err.error_tuples
                                            if t.instance is not None),
                        'report', 'the invalid property %s is not reported', name)
            elif kind == OK:
                require(name not in told, 'report', 'the valid property %s is reported', name)


CHECK = Check('C05', [Graphs()],
              ['properties.base (validate, _validate_props, error hooks)', 'Instance/List/Tuple/Dictionary/Union properties',
               'properties.handlers'],
              ['class validators, set-validators, custom types and error hooks (scripted, failing on demand)'],
              'a run counts when some validate() had to fail or a callback raised; histories are distinct by sha1 of the event log')
assert Violation and VE
