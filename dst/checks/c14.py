from ..core import Check
from ..corecheck import REAL, RULE, STUB, CoreScenario, claims_c14
from ..coregen import config

CHECK = Check('C14', [
    CoreScenario('defaults', config(defaults=.8, class_defaults=.5, override=.5, inherit=.7, n_classes=(1, 4),
                                    faults=.3, fault_ops=('new', 'reset'), failing_factories=.3, listeners=(0, 2),
                                    observe=.3, bad=.1, bad_kwargs=.08,
                                    weights=dict(new=14, reset=10, set=4, delete=3, mut=2, mutraw=6)),
                 claims_c14, 9000, 400000),
], REAL, STUB, RULE)
