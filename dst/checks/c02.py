from ..core import Check
from ..corecheck import REAL, RULE, STUB, CoreScenario, claims_c02
from ..coregen import config

CHECK = Check('C02', [
    CoreScenario('notify', config(listeners=(1, 4), instance_listeners=.2), claims_c02, 9000, 400000),
    CoreScenario('deep', config(listeners=(2, 5), instance_listeners=.3, acts=(0, 3), swallow=.8, bad=.15,
                                n_ops=(4, 10), act_weights=dict(set=9, mut=4)), claims_c02, 4000, 200000),
], REAL, STUB, RULE)
