from ..core import Check
from ..corecheck import REAL, RULE, STUB, CoreScenario, claims_c03
from ..coregen import config

CMP = ('outcome', 'state')
CHECK = Check('C03', [
    CoreScenario('domain', config(bad=.4, faults=.1, listeners=(0, 1), n_props=(2, 5), n_ops=(10, 24),
                                  act_weights=dict(set=1, new=0)), claims_c03, 9000, 400000, CMP),
    CoreScenario('mutations', config(bad=.35, faults=.15, observe=.95, n_props=(2, 4), n_ops=(10, 24), listeners=(0, 1),
                                     weights=dict(mut=20)), claims_c03, 5000, 200000, CMP),
], REAL, STUB, RULE)
