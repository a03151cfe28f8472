#!/usr/bin/env python3
"""mkseed.py NAME PROP FILE NEEDS BREAKS  (stdin: old text, a line ====, new text; several edits separated by a line ####)
writes seeded/NAME/{patch.diff,meta.json}; demo.sh is written by hand"""
import sys,os,json,subprocess
name,prop,f,needs,breaks=sys.argv[1:6]
d='/verif/seeded/'+name; os.makedirs(d,exist_ok=True)
t=open('/repo/'+f).read(); o=t
for e in sys.stdin.read().split('\n####\n'):
    a,b=e.split('\n====\n'); a=a.strip('\n'); b=b.strip('\n')
    assert t.count(a)==1,(t.count(a),a)
    t=t.replace(a,b)
os.makedirs('/tmp/ms/a/'+os.path.dirname(f),exist_ok=True); os.makedirs('/tmp/ms/b/'+os.path.dirname(f),exist_ok=True)
open('/tmp/ms/a/'+f,'w').write(o); open('/tmp/ms/b/'+f,'w').write(t)
r=subprocess.run(['diff','-u','a/'+f,'b/'+f],cwd='/tmp/ms',capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(r)
json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
