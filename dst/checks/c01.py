from ..core import Check
from ..corecheck import REAL, RULE, STUB, CoreScenario, claims_c01
from ..coregen import config

CHECK = Check('C01', [
    CoreScenario('faults', config(faults=.45, bad=.3, instance_listeners=.15), claims_c01, 9000, 400000),
    CoreScenario('observed', config(faults=.5, bad=.35, observe=.9, n_classes=(1, 2), custom=.3,
                                    weights=dict(mut=16)), claims_c01, 4000, 150000),
], REAL, STUB, RULE)
