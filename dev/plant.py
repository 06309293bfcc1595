#!/usr/bin/env python3
"""Development tool (not a check): turns a plant description into /verif/seeded/<id>/ and
reports whether it compiles, passes the stable tests, its demo discriminates, and the check
of its property catches it.   plant.py FILE.py [ids...]
FILE.py defines PLANTS = [dict(id, prop, file, edits=[(old,new),...], needs, breaks, demo)]"""
import sys, os, json, subprocess, shutil, importlib.util, re
from concurrent.futures import ThreadPoolExecutor
PY='/opt/venv/bin/python'
ENV=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig',
         OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VERIF_SEED='1', VERIF_TIER='quick')
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd, cwd, timeout=900, env=None):
    try:
        p=subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd,str), capture_output=True, text=True, timeout=timeout, env=env or ENV)
        return p.returncode, p.stdout+p.stderr
    except subprocess.TimeoutExpired:
        return 124,'timeout'
def mine(file, line):
    r=subprocess.run(['git','blame','-s','-L',f'{line},{line}','a0f8b60..HEAD','--',file],cwd='/repo',capture_output=True,text=True).stdout
    return not r.startswith('^')
def plant(P, check=True, tests=True):
    d='/verif/seeded/'+P['id']; cp='/tmp/plant_'+P['id']
    shutil.rmtree(cp, ignore_errors=True); subprocess.run(['cp','-a','/repo',cp],check=True)
    res={'id':P['id'],'prop':P['prop']}
    try:
        eds=P['edits'] if 'edits' in P else [(P['old'],P['new'])]
        for e in eds:
            f,o,n = e if len(e)==3 else (P['file'],)+tuple(e)
            s=open(cp+'/'+f).read()
            if s.count(o)!=1: res['err']=f'{s.count(o)} matches for {o!r}'; return res
            open(cp+'/'+f,'w').write(s.replace(o,n))
        _,diff=sh(['git','diff'],cp)
        # changed original lines
        cur=None; bad=[]; nrem=0; f=None
        for l in diff.splitlines():
            m=re.match(r'--- a/(.*)',l)
            if m: f=m.group(1); continue
            m=re.match(r'@@ -(\d+)',l)
            if m: cur=int(m.group(1)); continue
            if cur is None or l.startswith('+++') : continue
            if l.startswith('-'):
                nrem+=1
                if mine(f,cur): bad.append((f,cur))
                cur+=1
            elif l.startswith(' '): cur+=1
        if bad: res['mine']=bad
        if nrem==0: res['note']='pure addition'
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.py','w').write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n"+P['demo'].strip('\n')+"\n")
        open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':P['prop'],'needs':P['needs'],'what_it_breaks':P['breaks']},open(d+'/meta.json','w'),indent=1)
        open(d+'/meta.json','a').write('\n')
        r0,o0=sh(['bash',d+'/demo.sh'],'/repo',300); r1,o1=sh(['bash',d+'/demo.sh'],cp,300)
        res['demo']=(r0,r1)
        if r0: res['demo_out']=o0[-600:]
        elif not r1: res['demo_out']=o1[-300:]
        if tests:
            env=dict(ENV,PYTHONPATH=cp)
            sh([PY,'-m','pytest','-q','-p','no:cacheprovider','--tb=short','-W','default','--timeout=300','--continue-on-collection-errors','-o','junit_family=xunit2','-o','python_files=test_*.py SelfSimilar.py','--rootdir='+cp,'--junitxml=/tmp/plant_%s.xml'%P['id'],'wiz'],cp,900,env)
            sh(['python3','/opt/vp/results.py','/tmp/plant_%s.json'%P['id'],'junit:/tmp/plant_%s.xml'%P['id']],cp)
            R=json.load(open('/tmp/plant_%s.json'%P['id'])); 
            ps=set(R.get('passed',[])) if isinstance(R.get('passed'),list) else {k for k,v in R.get('results',R).items() if v in('passed','pass',True)}
            res['tests_lost']=sorted(STABLE-ps)
            for e in ('xml','json'):
                os.path.exists('/tmp/plant_%s.%s'%(P['id'],e)) and os.remove('/tmp/plant_%s.%s'%(P['id'],e))
        if check:
            env=dict(ENV,VERIF_REPO=cp)
            wd='/tmp/plantv_'+P['id']; shutil.rmtree(wd,ignore_errors=True)
            subprocess.run(['cp','-a','/verif',wd],check=True)
            try:
                rc,out=sh([wd+'/bin/check',P['prop']],wd,1000,env)
                res['check']=rc; res['out']=[l for l in out.splitlines() if 'VIOLATION' in l][:1] if rc==1 else out[-500:]
                try:
                    res['why']=json.load(open(wd+'/out/%s/violation1.json'%P['prop']))['failing']
                    res['why']=str(res['why'])[:300]
                except Exception as e: pass
            finally: shutil.rmtree(wd,ignore_errors=True)
    finally:
        shutil.rmtree(cp,ignore_errors=True)
    return res
if __name__=='__main__':
    sp=importlib.util.spec_from_file_location('plants',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    ids=[a for a in sys.argv[2:] if not a.startswith('--')]
    L=[P for P in m.PLANTS if not ids or P['id'] in ids]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda P: plant(P, '--nocheck' not in sys.argv), L):
            ok = 'err' not in r and r.get('demo',(1,0))[0]==0 and r['demo'][1]!=0 and not r.get('tests_lost') and not r.get('mine')
            print(('OK  ' if ok else 'BAD ')+('CAUGHT ' if r.get('check')==1 else 'MISSED '), json.dumps(r), flush=True)
