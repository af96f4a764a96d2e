"""writes MANIFEST.json from properties.jsonl, the checks that exist (mc/checks) and NOTES below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib; from tools.notes import N
NA = {}
def main():
    ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    checks, na = [], []
    for i in ids:
        try: m = importlib.import_module('mc.checks.' + i.lower())
        except ModuleNotFoundError:
            na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
            continue
        checks.append(dict(property=i, quick_cmd='bash check.sh ' + i, thorough_cmd='VERIF_TIER=thorough bash check.sh ' + i,
            technique=N[i][0], level=m.LEVEL, level_note=N[i][1]))
    json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
main()
