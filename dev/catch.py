#!/usr/bin/env python3
"""Development tool: runs the check of every planted bug's property (quick, seed from VERIF_SEED) on a copy of /repo with
the bug, and rewrites the table of DESIGN.md.   catch.py [ids...]"""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
from plant import sh, ENV
S='/verif/seeded'; OUT='/tmp/catch.json'
WORK='/tmp/catch_verif'
def one(i):
    d=S+'/'+i; m=json.load(open(d+'/meta.json')); cp='/tmp/catch_'+i; wd='/tmp/catchv_'+i
    shutil.rmtree(cp,ignore_errors=True); shutil.rmtree(wd,ignore_errors=True)
    try:
        subprocess.run(['cp','-a','/repo',cp],check=True); subprocess.run(['cp','-a',WORK,wd],check=True)
        rc,o=sh(['git','apply',d+'/patch.diff'],cp)
        if rc: return i,m,'does not apply',''
        rc,o=sh([wd+'/bin/check',m['property'],'quick'],wd,1000,dict(ENV,VERIF_REPO=cp))
        cl=''
        try:
            e=json.load(open(wd+'/out/%s/violation1.json'%m['property']))
            cl=e.get('clauses') or ''
        except Exception: pass
        return i,m,{0:'MISSED',1:'caught'}.get(rc,'rc %d'%rc),cl
    finally:
        shutil.rmtree(cp,ignore_errors=True); shutil.rmtree(wd,ignore_errors=True)
if __name__=='__main__':
    ids=sys.argv[1:] or sorted(os.listdir(S))
    shutil.rmtree(WORK,ignore_errors=True)
    subprocess.run(['git','clone','-q','/verif',WORK],check=True)
    R=json.load(open(OUT)) if os.path.exists(OUT) else {}
    with ThreadPoolExecutor(3) as ex:
        for i,m,r,cl in ex.map(one,ids):
            R[i]=dict(property=m['property'],result=r,needs=m['needs'],breaks=m['what_it_breaks'],clauses=cl); print(i,r,cl,flush=True)
            json.dump(R,open(OUT,'w'))
    shutil.rmtree(WORK,ignore_errors=True)
    have=[i for i in sorted(R) if os.path.isdir(S+'/'+i)]
    t='| bug | property | needs | result |\n|---|---|---|---|\n'+''.join('| %s | %s | %s | %s |\n'%(i,R[i]['property'],R[i]['needs'].replace('|','/').replace('\n',' '),R[i]['result']) for i in have)
    p='/verif/DESIGN.md'; s=open(p).read(); a=s.index('<!-- CATCH -->'); b=s.index('<!-- /CATCH -->')
    open(p,'w').write(s[:a]+'<!-- CATCH -->\n'+t+s[b:])
