import json, sys
base = json.load(open('/opt/vp/BASELINE.json'))
res = json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x, dict):
        for k in ('passed', 'stable', 'tests', 'pass'):
            if k in x: return set(x[k])
    return set(x)
missing = names(base) - names(res)
if missing:
    print(sorted(missing)[:10]); sys.exit(1)
