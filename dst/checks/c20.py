from ..core import Check
from ..corecheck import REAL, RULE, STUB, CoreScenario, claims_c20
from ..coregen import config

CHECK = Check('C20', [
    CoreScenario('construct', config(faults=.4, fault_ops=('new',), bad_kwargs=.35, unknown_kwargs=.12, listeners=(0, 3),
                                     n_props=(1, 5), weights=dict(new=22, set=5, delete=2, reset=2, mut=2)),
                 claims_c20, 9000, 400000),
], REAL, STUB, RULE)
