#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from /verif/seeded and a log of runs
(lines 'id property rc=1 3s MON-VIOLATION prop=.. group=.. key=..')."""
import json,os,re,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log=open(sys.argv[1],errors='replace').read() if len(sys.argv)>1 else ''
rows=[]
for b in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%b))
    r=re.search(r'^%s (\w+) rc=(\d+) (.*)$'%re.escape(b),log,re.M)
    how='not run'
    if r:
        g=re.search(r'group=(\S+)',r.group(3)); k=re.search(r' key=(\S+)',r.group(3))
        how='caught' if r.group(2)=='1' else 'MISSED'
        if g: how+=' (%s, %s)'%(g.group(1),k.group(1) if k else '')
    rows.append('| %s | %s | %s | %s |'%(m['property'],b,m['what_it_breaks'].replace('|','/'),how))
rows.sort()
d=open(V+'/DESIGN.md').read()
mark='<!-- planted -->'
d=d.split(mark)[0].rstrip()+'\n\n'+mark+'\n| property | change | what it breaks | its check, quick |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n'
open(V+'/DESIGN.md','w').write(d)
