import json,sys
d=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 40
print('##',d['sig'],d['detail'],d['replay'])
t=d['extra'].get('trace_tail',[])
if len(sys.argv)>3:
    import re
    t=[l for l in t if re.search(r'\b%s\b'%sys.argv[3],l)]
t=[l for l in t if 'c0 t0 m0 e0 f0' not in l]
for l in t[-n:]: print('  ',l)
