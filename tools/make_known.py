"""Writes /verif/known_findings.json."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    'the web color firebrick': 'C03', 'a String that strips and changes case': 'C06',
    'keep observed container attached': 'C13', 'listeners_disabled counts open': 'C04',
    'listeners_disabled only affects the thread': 'C04', 'Singleton.deserialize no longer': 'C11',
    'concurrent or re-entrant Singleton': 'C11', 'failed Singleton.deserialize does not': 'C11',
    "Singleton classes without a 'name'": 'C11', 'failed HasUID construction': 'C09',
    'deleting the uid': 'C09', 'HasUID.deserialize accepts instances': 'C10',
    'failed HasUID.deserialize releases': 'C10', 'HasUID.deserialize honours': 'C10',
    'ImagePNG serializes the whole': 'C16', 'Vector3Array and Vector2Array': 'C19',
    'a rejected deletion of a File': 'C16', 'DateTime serializes years': 'C06',
    'numbers too large': 'C03', 'BaseTask.report_status': 'C15', 'a HasUID instance can take back': 'C09',
    'a HasUID construction that fails after': 'C09',
    'validate reports every invalid property when': 'C05',
    'save_dynamic does not pass undefined': 'C08',
    'a Pointer holding a uid': 'C10',
    'a link that fails while': 'C12',
    'operators of observed containers let': 'C13', 'an observed container kept by': 'C13',
    'observed containers do not gain': 'C13',
    'save_dynamic converts a Renamed': 'C18',
    'a document key naming a Renamed': 'C18',
    'a class-level default is not undone': 'C14',
    'comparing property values never raises': 'C02',
    'an array input that cannot': 'C20',
    'scaling a vector to its length': 'C19',
    'a vector component too large': 'C20',
    'deserializing an Array keeps': 'C06',
    'empty and 0-dimensional arrays': 'C06',
    'a dynamic or contained URL': 'C18',
    'deserialize does not store dynamic': 'C18',
    'dynamic properties serialize, load': 'C06',
    'vectors with nan or inf': 'C06',
    'a vector too long to be': 'C07',
    'a closed image is not': 'C16', 'an empty file given as': 'C16',
    'comparing instances compares a Renamed': 'C18',
    'a Union loads a subclass': 'C06',
    'a new uid is registered before': 'C09', 'an infinite or nan Float': 'C05',
}
EXTRA = json.load(open(os.path.join(HERE, 'tools', 'fixes.json'))) if os.path.exists(
    os.path.join(HERE, 'tools', 'fixes.json')) else {}
PROP.update(EXTRA)
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fixed = []
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    what = s[5:]
    pid = [v for k, v in PROP.items() if what.startswith(k)]
    assert len(pid) == 1, line
    fixed.append('fixed: property=%s %s %s' % (pid[0], h, what))
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=[], fixed=fixed), f, indent=1)
    f.write('\n')
