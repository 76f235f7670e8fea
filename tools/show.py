import json,sys
for p in sys.argv[1:]:
    e=json.load(open((__import__('os').environ.get('VFA_EVIDENCE') or '/verif/evidence')+'/%s.json'%p))
    for o in e['coverage']['details']:
        if o['status']!='proved': print(o['status'],o['id'],o['where'],o.get('detail','')[:1500])
