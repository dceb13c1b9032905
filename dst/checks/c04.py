import random

from .. import core
from ..core import Check
from ..corecheck import REAL, RULE, STUB, CoreScenario, claims_c04, strip_scopes
from ..coregen import config
from .c04_loads import Loads
from .c17 import Core

THREADS = config(scopes=.55, faults=.15, listeners=(1, 3), instance_listeners=.1, bad=.1, n_ops=(3, 8), probes=2,
                 n_classes=(1, 2), act_weights=dict(scoped=4))


class Threads(Core):
    """Scopes opened in one thread say nothing to the others"""
    name = 'threads'
    quick = 1600
    thorough = 80000

    def cfg(self, rng):
        return THREADS

    def schedule(self, rng, n):
        return dict(super().schedule(rng, n), root=rng.choice(['', '', 'base', 'base/base.py', 'handlers.py', 'handlers.py']))

    def run(self, plan, st):
        try:
            super().run(plan, st)
        except core.Violation as err:
            if not self.silenced():
                st.foreign = '%s (threads)' % err.kind
                return
            # without any scope, do threads still disturb one another? Then it is not the scopes
            calm = dict(plan, threads_ops=[strip_scopes({'classes': plan['classes'], 'ops': ops})['ops']
                                           for ops in plan['threads_ops']])
            calm['classes'] = strip_scopes({'classes': plan['classes'], 'ops': []})['classes']
            rng = random.Random(str(plan.get('seed')))
            for _ in range(12):
                try:
                    super().run(dict(calm, schedule=self.schedule(rng, len(plan['threads_ops']))), core.Stats())
                except core.Violation:
                    st.foreign = '%s (threads)' % err.kind
                    return
            raise

    def silenced(self):
        """Is the first difference a listener called by one and not by the other?"""
        def who(x):
            return x[1][:2] if isinstance(x, list) and x[0] == 'event' and x[1][0] == 'cb' else None
        if self.parted is None:
            return True
        a, b = (who(x) for x in self.parted)
        return a != b and not any(isinstance(x, str) for x in self.parted)


CHECK = Check('C04', [
    CoreScenario('scopes', config(scopes=.45, faults=.2, listeners=(1, 3), instance_listeners=.1, bad=.2,
                                  failing_factories=.3, n_ops=(8, 20),
                                  act_weights=dict(scoped=6)), claims_c04, 9000, 400000),
    Threads(), Loads(),
], REAL, STUB + ['threads: switched by a seeded scheduler at source lines or opcodes of the library'], RULE)
