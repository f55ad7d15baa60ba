import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']
for c in sorted(e['per_configuration'],key=lambda c:-c['paths'])[:8]: print(c)
print({k:e[k] for k in ('traces_validated_against_impl','not_encoded_paths','notes','cut_reasons')})
