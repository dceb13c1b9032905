"""Checks decided by the core world: which mismatch belongs to which property.

Every check runs the same kind of plan with its own emphasis. When model and
library part, the mismatch is attributed: `claims` decides from what differed,
and, where a property is about a trigger (a failure, a scope, an alias), the
plan is re-run with that trigger removed - if the difference stays, it is not
this property's (it is counted in evidence as left to another check).
"""
import json

from . import core
from .coregen import Gen
from .coreworld import ModelSide, World, run_plan

TUPLES = ('n_ops', 'n_classes', 'n_props', 'listeners', 'acts', 'fault_ops')


class CoreScenario(core.Scenario):
    def __init__(self, name, cfg, claims, quick, thorough, compare=('outcome', 'events', 'state')):
        self.name = name
        self.cfg = cfg
        self.claims = claims
        self.quick = quick
        self.thorough = thorough
        self.compare = compare

    def gen(self, rng, tier):
        cfg = json.loads(json.dumps(self.cfg))
        for k in TUPLES:
            cfg[k] = tuple(cfg[k])
        if tier == 'thorough' and rng.random() < .3:
            cfg['n_ops'] = (cfg['n_ops'][0], cfg['n_ops'][1] * 3)
        return Gen(rng, cfg).plan()

    def run(self, plan, st):
        mm = run_plan(plan, st, self.compare)
        if mm is None:
            return
        mm.compare = self.compare
        if self.claims(plan, mm):
            raise core.Violation(mm.what, mm.message())
        st.foreign = '%s (%s)' % (mm.what, mm.op['a'])
        if mm.what == 'events':
            # what was heard differs, and that is another check's; do results and values?
            compare = tuple(x for x in self.compare if x != 'events')
            mm = run_plan(plan, None, compare)
            if mm is not None:
                mm.compare = compare
                if self.claims(plan, mm):
                    raise core.Violation(mm.what, mm.message())


# -- plan transformations --------------------------------------------------------

def clone(x):
    return json.loads(json.dumps(x))


def model_outcomes(plan):
    w = World(plan, ModelSide())
    out = []
    for op in plan['ops']:
        r = w.run_op(op)
        out.append((r, w.fired, w.swallowed))
    return out


def strip_failures(plan, only=None):
    """Without injected exceptions and without the operations that fail"""
    outs = model_outcomes(plan)
    p = clone(plan)
    ops = []
    for op, (r, fired, swallowed) in zip(p['ops'], outs):
        if only is not None and op['a'] not in only:
            ops.append(op)
            continue
        op.pop('faults', None)
        if r[0] in ('reject', 'raise') or swallowed or (fired and op['a'] == 'with'):
            continue
        ops.append(op)
    p['ops'] = ops
    return p


def _unscope_body(body):
    out = []
    for act in body:
        if act['a'] == 'with':
            out += _unscope_body(act['body'])
        else:
            out.append(act)
    return out


def strip_scopes(plan):
    p = clone(plan)
    ops = []
    for op in p['ops']:
        if op['a'] in ('cm', 'enter', 'exit'):
            continue
        if op['a'] == 'with':
            for k, inner in enumerate(_unscope_body(op['body'])):
                inner['i'] = '%s.%d' % (op['i'], k)
                ops.append(inner)
            continue
        if op['a'] == 'reg':
            op['l']['body'] = _unscope_body(op['l']['body'])
        ops.append(op)
    p['ops'] = ops
    for cs in p['classes']:
        for l in cs['listeners']:
            l['body'] = _unscope_body(l['body'])
    return p


def strip_aliases(plan):
    """Every use of a renamed property through its new name, no dynamic ones"""
    p = clone(plan)
    side = ModelSide()
    side.prepare(p['classes'])
    new = {}
    dyn = set()
    for r in side.renames:
        new.update(dict((k, v[0]) for k, v in r.items()))
    for d in side.dynamics:
        dyn.update(d)

    def to(n):
        while n in new:
            n = new[n]
        return n
    ops = []
    for op in p['ops']:
        if op['a'] == 'keys':
            continue
        if 'p' in op:
            op['p'] = to(op['p'])
            if op['p'] in dyn:
                continue
        if op['a'] == 'new':
            op['kwargs'] = [[to(k), v] for k, v in op['kwargs'] if k not in dyn]
        ops.append(op)
    p['ops'] = ops
    for cs in p['classes']:
        cs.pop('renamed', None)
        cs.pop('dynamic', None)
    return p


def vanishes(plan, compare=('outcome', 'events', 'state')):
    """True if the stripped plan shows no difference"""
    try:
        return run_plan(plan, None, compare) is None
    except core.Violation:
        return False


# -- attribution ---------------------------------------------------------------------

def is_type_disagreement(mm):
    """Model and library disagree on whether a value is valid"""
    m, r = mm.info['model_out'], mm.info['real_out']
    return mm.what == 'outcome' and (
        (m[0] == 'reject') != (r[0] == 'reject')) and not (m[0] == 'raise' and m[2])


def claims_c01(plan, mm):
    if is_type_disagreement(mm) and not mm.info['failed_before']:
        return False
    failing = mm.info['failed_before'] or mm.info['fired'] or mm.info['swallowed'] \
        or mm.info['model_out'][0] in ('reject', 'raise')
    return bool(failing) and vanishes(strip_failures(plan), mm.compare)


def claims_c02(plan, mm):
    return mm.what == 'events' or (mm.what == 'state' and mm.info['substituted'])


def claims_c03(plan, mm):
    m, r = mm.info['model_out'], mm.info['real_out']
    if mm.what == 'state':
        return True
    return is_type_disagreement(mm) or (m[0] == 'reject' and r[0] != 'reject') \
        or (m[0] == 'ok' and r[0] == 'raise') or (m[0] == 'ok' and r[0] == 'ok')


def claims_c04(plan, mm):
    if mm.info['scopes_used'] and vanishes(strip_scopes(plan), mm.compare):
        return True
    if mm.what == 'events' and mm.info['failed_before']:
        m, r = mm.info['events']
        silenced = m != '<nothing>' and m[0] == 'cb'
        return silenced and vanishes(strip_failures(plan), mm.compare)
    return False


def claims_c14(plan, mm):
    op = mm.op['a']
    if op == 'reset':
        return True
    if op == 'new':
        if mm.what == 'events':
            m, r = mm.info['events']
            if 'factory' in (m[0], r[0]) or not mm.op['kwargs']:
                return True
        elif mm.what == 'state':
            return True
        elif not mm.op['kwargs'] or not is_type_disagreement(mm):
            return True
    if op == 'mutraw':
        return True
    if mm.info['failed_before'] and vanishes(strip_failures(plan, ('new', 'reset')), mm.compare):
        return True
    return False


def claims_c20(plan, mm):
    m = mm.info['model_out']
    if mm.op['a'] == 'new' and m[0] in ('reject', 'raise'):
        return vanishes(strip_failures(plan, ('new',)), mm.compare)
    if mm.op['a'] == 'new' and mm.what == 'events' and 'hook' in (mm.info['events'][0][0], mm.info['events'][1][0]):
        return True
    if mm.info['failed_before']:
        return vanishes(strip_failures(plan, ('new',)), mm.compare)
    return False


def claims_c18(plan, mm):
    if mm.what == 'events':
        kinds = (mm.info['events'][0][0], mm.info['events'][1][0])
        if any(k in kinds for k in ('warn', 'dget', 'dset', 'ddel')):
            return True
    if mm.op['a'] == 'keys':
        return True
    return vanishes(strip_aliases(plan), mm.compare)


REAL = ['properties.base (HasProperties, metaclass, defaults, construction)', 'properties.handlers',
        'properties.basic / math / containers / instance / union property types', 'observed containers']
STUB = ['user callbacks (listeners, default factories, custom property types, error hooks, getters/setters): '
        'scripted by the plan', 'uuid.uuid4 and random: seeded']
RULE = ('a run counts when at least one operation failed or was refused (an exception injected at a callback, '
        'a rejected value, an unknown name); histories are distinct by sha1 of the full event log')
