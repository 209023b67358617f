import json,os,re
rows=[]
for d in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{d}/meta.json'))
    rows.append((m['property'],d,m['needs']))
rows.sort()
out=['| property / check | planted bug | needs | first run |','|---|---|---|---|']
missed={'event-time-of-hooks':'missed; hooks now take simulated time','placement-slack':'missed; schemas S7, S8 (alternating alignments) added'}
missed.update(json.load(open('tools/missed.json')) if os.path.exists('tools/missed.json') else {})
for p,d,n in rows:
    n=n.replace('|','/').replace('\n',' ')
    if len(n)>150: n=n[:147]+'...'
    out.append(f'| {p} | `{d}` | {n} | {missed.get(d,"caught")} |')
t=open('DESIGN.md').read()
i=t.index('<!--TABLE-->') if '<!--TABLE-->' in t else t.index('(TABLE)')
t=t[:i]+'<!--TABLE-->\n'+'\n'.join(out)+'\n'
open('DESIGN.md','w').write(t)
