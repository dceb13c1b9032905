"""Helpers shared by the dedicated machines: fault injection and outcomes."""
import _thread
import copy
import json

from . import core, seams
from .coreworld import EXC_NAMES, EXCS, FaultBase, Skip  # noqa: F401

GENERIC = (ValueError, KeyError, TypeError, AttributeError)
PASS = (Skip, core.NoProgress, core.Violation)


class Injector(object):
    """Raises the exceptions a plan asks for at the n-th callback crossing.

    One schedule per simulated thread, so that what a thread meets does not
    depend on the others."""

    def __init__(self, st):
        self.st = st
        self.p = seams.load()
        self.by_thread = {}

    def arm(self, opid, faults):
        self.by_thread[_thread.get_ident()] = [
            str(opid), 0, dict((int(f['n']), f['exc']) for f in faults or ()), []]

    def cross(self, site):
        s = self.by_thread.get(_thread.get_ident())
        if s is None:
            return
        s[1] += 1
        name = s[2].get(s[1])
        if name is None:
            return
        self.st.fault('%s raised in %s' % (name, site))
        err = self.make(name, '%s.%d' % (s[0], s[1]), s[3])
        err._site = site
        raise err

    def make(self, name, marker, fired=None):
        cls = self.p.ValidationError if name == 'VE' else EXCS[name]
        err = cls('injected %s' % marker)
        err._marker = marker
        err._kind = name
        if fired is not None:
            fired.append(err)
        return err

    def fired(self):
        s = self.by_thread.get(_thread.get_ident())
        return list(s[3]) if s else []

    def planned(self):
        s = self.by_thread.get(_thread.get_ident())
        return bool(s and s[2])

    def crossings(self):
        s = self.by_thread.get(_thread.get_ident())
        return s[1] if s else 0

    def disarm(self):
        self.by_thread.pop(_thread.get_ident(), None)


def outcome(err):
    """Canonical form of an exception"""
    marker = getattr(err, '_marker', None)
    if marker is not None:
        return ['raise', err._kind, marker]
    p = seams.load()
    if isinstance(err, p.ValidationError):
        return ['raise', 'ValidationError', None]
    return ['raise', type(err).__name__, None]


def attempt(func):
    """('ok', value) or ('err', exception)"""
    try:
        return 'ok', func()
    except PASS:
        raise
    except BaseException as err:
        return 'err', err


def gen_faults(rng, rate, most=6):
    if rng.random() >= rate:
        return []
    out = [{'n': rng.randint(1, rng.choice([1, 2, 3, most])), 'exc': rng.choice(EXC_NAMES)}]
    if rng.random() < .15:
        out.append({'n': rng.randint(1, most), 'exc': rng.choice(EXC_NAMES)})
    return out


def require(cond, kind, msg, *args):
    if not cond:
        raise core.Violation(kind, msg % args if args else msg)


def jsoncopy(x):
    return json.loads(json.dumps(x))


def deep(x):
    return copy.deepcopy(x)


def wchoice(rng, weights):
    total = sum(weights.values())
    r = rng.random() * total
    for k in sorted(weights):
        r -= weights[k]
        if r <= 0:
            return k
    return sorted(weights)[-1]


def preemptions(rng, threads, hi, most=6):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, most])
    return sorted([rng.randint(1, hi), rng.randint(0, threads - 1)] for _ in range(n))
