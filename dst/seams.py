"""Seams: everything nondeterministic the library could touch is replaced here
*before* it is imported, and re-seeded at the start of every simulated run.

Real: all of /repo/properties, numpy, vectormath, pypng, traitlets.
Replaced: uuid.uuid4, the global `random`, thread creation/scheduling
(dst.sched), locks, and - per scenario - builtins.open.
"""
import _thread
import os
import random
import sys
import tempfile
import uuid
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')

_uuid_rng = random.Random(0)
_glob_rng = random.Random(0)
_by_thread = {}         # simulated thread -> (uuid source, random source) of its own


def _seeded_uuid4():
    own = _by_thread.get(_thread.get_ident())
    return uuid.UUID(int=(own[0] if own else _uuid_rng).getrandbits(128), version=4)


class _Dispatch(random.Random):
    """The source behind the functions of `random`: seeded per simulated thread"""

    def source(self):
        own = _by_thread.get(_thread.get_ident())
        return own[1] if own else _glob_rng

    def random(self):
        return self.source().random()

    def getrandbits(self, k):
        return self.source().getrandbits(k)

    def seed(self, *args, **kwargs):
        pass


def _install_random():
    source = _Dispatch()
    for name in dir(random):
        f = getattr(random, name)
        if not name.startswith('_') and isinstance(getattr(f, '__self__', None), random.Random):
            setattr(random, name, getattr(source, name))


def thread_sources(seed):
    """From now on this thread has random sources of its own (None: no longer)"""
    if seed is None:
        _by_thread.pop(_thread.get_ident(), None)
    else:
        _by_thread[_thread.get_ident()] = (random.Random('uuid/%s' % seed), random.Random('glob/%s' % seed))


_loaded = {}


def load(points=False):
    """Import the library from the working tree of REPO, seams installed."""
    if _loaded:
        return _loaded['p']
    sys.dont_write_bytecode = True
    # never read __pycache__ of the tree: always compile the current source
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-pyc-%d' % os.getpid())
    warnings.simplefilter('ignore')
    from . import sched
    sched.install_locks()
    uuid.uuid4 = _seeded_uuid4
    _install_random()
    sys.path.insert(0, REPO)
    if points:
        from . import instrument
        instrument.install()
    for name in [n for n in sys.modules if n == 'properties' or n.startswith('properties.')]:
        del sys.modules[name]
    import properties
    import properties.extras  # noqa: F401
    here = os.path.realpath(properties.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('properties imported from %s, not %s' % (here, REPO))
    warnings.simplefilter('ignore')
    _loaded['p'] = properties
    return properties


def reset(seed):
    """Seed every random source the library can reach."""
    _uuid_rng.seed('uuid/%s' % (seed,))
    _glob_rng.seed('glob/%s' % (seed,))
    _by_thread.clear()
    import numpy
    numpy.random.seed(12345)
