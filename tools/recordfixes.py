import subprocess,re
# commit subject fragment -> property
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h\t%s']).decode().splitlines()
known=open('/verif/known_findings.txt').read().splitlines()
have={l.split()[2] for l in known if l.startswith('fixed:')}
MAP=[('Reduction','P01'),]
def prop(s):
    import json
    try: m=json.load(open('/verif/tools/fixprops.json'))
    except Exception: m={}
    for k,v in m.items():
        if k in s: return v
    return None
out=[]
for l in log:
    h,s=l.split('\t',1)
    if not s.startswith('fix:') or h in have: continue
    p=prop(s)
    if p is None: print('unmapped',s); continue
    out.append(f'fixed: property={p} {h} {s[5:]}')
open('/verif/known_findings.txt','a').write(''.join(x+'\n' for x in out))
print(len(out))
