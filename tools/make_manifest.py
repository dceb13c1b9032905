"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection (seeded search)'
NOTES = {
    'C01': 'model-vs-library simulation; exceptions of 13 kinds injected at every callback crossing',
    'C02': 'model-vs-library simulation; full event log compared after every operation',
    'C03': 'model-vs-library simulation; independent coercion model of every property type, failing callbacks',
    'C04': 'model-vs-library simulation of nested, reused, interleaved scopes left by exceptions, and of threads',
    'C05': 'validate over random object graphs with injected validator faults, against a graph model',
    'C06': 'histories of changes, saves, crashes with torn unsynced writes, restarts with fresh classes and loads, '
           'with failing serializers, deserializers and factories, against an independent model of documents',
    'C07': 'structurally and textually damaged documents loaded under every flag with failing callbacks, judged by an '
           'independent model of what each flag permits',
    'C15': 'task calls with retries, failures, re-entrant and pre-empted concurrent calls, against a model of the protocol',
    'C16': 'file and image histories over a simulated file system failing at any call',
    'C17': 'threads sharing classes pre-empted at statements and within them by a seeded scheduler; every thread compared with its solo run',
    'C19': 'alias and frame checks over every tracked object, input, document and copy after each operation',
    'C08': 'serialize, equal and copy of random graphs with faults in every callback, against a graph model',
    'C09': 'uid histories with crashes in the middle of constructions, renames and claims',
    'C10': 'save, process restart and reload of HasUID graphs, with damaged documents and failing callbacks',
    'C11': 'singleton constructions and loads, re-entrant and in threads under a seeded scheduler',
    'C12': 'model-vs-library simulation of link graphs with rejecting targets and failing transforms and listeners',
    'C13': 'every container method and operator on held, replaced and copied containers against builtin twins, with '
           'failing listeners, iterables and sort keys',
    'C14': 'model-vs-library simulation of inheritance, overrides and failing default factories',
    'C18': 'model-vs-library simulation of renamed and dynamic properties with failing getters and setters',
    'C20': 'model-vs-library simulation of failing constructions, hooks and factories',
}
NA = {
    'C21': 'a pure function of one input: no schedule, time, I/O, fault or history for a simulator to control '
           '(what depends on history is covered by C03)',
    'C22': 'a pure function of the class definition, computed once when the class is declared; nothing to schedule or fault',
    'C23': 'a pure function of the class definition, decided once when the class is declared; nothing to schedule or fault',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'dst', 'checks', pid.lower() + '.py')):
        checks.append(dict(
            property=pid, quick_cmd='bin/check %s' % pid, thorough_cmd='bin/check %s thorough' % pid,
            technique=TECH, level='exploration',
            level_note=NOTES.get(pid, 'seeded simulation against a reference model') +
            '. Sampled, not exhaustive: what the seeds reach. Trusts the reference model and CPython.'))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
data = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
            notes='No hooks in /repo: every seam is installed from outside before the library is imported. '
                  'VERIF_SCALE scales the number of runs, VERIF_WORKERS the processes, VERIF_REPO the tree.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(data, f, indent=1)
    f.write('\n')
