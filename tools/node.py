import json,sys,re
d=json.load(open(sys.argv[1])); t=d['extra']['trace_tail']; print(d['detail'], d['replay'], len(t))
n=re.search(r'node (\d+)',d['detail']).group(1); k=re.search(r'(?:future|timer) (\d+)',d['detail'])
k=k.group(1) if k else 'x'
L=[l for l in t if (re.match(n+':',l) or 'Some(%s)'%n in l or re.search(r'on %s\b'%n,l) or re.search(r'\b%s\b'%k,l) or 'gate' in l or 'spurious' in l)]
for l in L[-int(sys.argv[2]):]: print(l[:110])
