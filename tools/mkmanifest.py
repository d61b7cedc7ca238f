"writes MANIFEST.json from properties.jsonl and harness/levels.py"
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from harness.levels import LEVELS, NOTES
checks = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    lv = LEVELS.get(p, 'exploration')
    checks.append(dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='python3-vt check.py ' + p,
                       technique=NOTES[lv][0], level=lv, level_note=NOTES.get(p, NOTES[lv][1])))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=[]), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
