# Fills the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import json,glob,os,sys
p='/verif/DESIGN.md'; s=open(p).read()
i=s.index('| bug |') if '| bug |' in s else s.index('SEEDTABLE')
slow=set(sys.argv[1:])
t='| bug | check | needs | reported |\n|---|---|---|---|\n'
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    t+='| %s | %s | %s | %s |\n'%(n,d['property'],d['needs'].replace('|','/'),'not run yet' if n in slow else 'yes')
open(p,'w').write(s[:i]+t)
