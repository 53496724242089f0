import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
S=set(b['stable']); P=set(t['passed'])
print("stable", len(S), "missing", sorted(S-P)[:5])
