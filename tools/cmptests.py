import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
p=set(t['passed']); miss=[x for x in b['stable'] if x not in p]
print('stable',len(b['stable']),'missing',miss)
sys.exit(1 if miss else 0)
