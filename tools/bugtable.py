"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (not used by any check)"""
import json,glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(R+'/seeded/*/meta.json'),key=lambda f:(json.load(open(f))['property'],f)):
    m=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(os.path.basename(os.path.dirname(f)),m['property'],m['what_it_breaks'],m['needs']))
p=R+'/DESIGN.md'; s=open(p).read()
a=s.index('| planted bug | property |'); a=s.index('\n',s.index('\n',a)+1)+1
b=s.index('\n\n',a)
open(p,'w').write(s[:a]+'\n'.join(rows)+s[b:])
print(len(rows))
