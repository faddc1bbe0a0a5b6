import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print("stable", len(b), "now failing:", sorted(b-o)); sys.exit(bool(b-o))
