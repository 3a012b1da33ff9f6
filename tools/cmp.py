import json,sys
a=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
print('missing', sorted(set(b['stable'])-set(a['passed'])), 'failed', a.get('failed'))
