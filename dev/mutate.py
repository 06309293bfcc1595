#!/usr/bin/env python3
"""Development tool (not a check): systematic mutation of /repo/wiz in scratch copies.
  mutate.py list OUT.json            generate the mutants (one small syntactic change each)
  mutate.py tests OUT.json           keep those that still compile and pass the stable tests
  mutate.py check OUT.json [VERIF]   run the checks of the mutated file on the survivors, stop at the first alarm
Results are appended to OUT.json.  Equivalent mutants exist: the ones no check sees are looked at by hand."""
import warnings; warnings.simplefilter("ignore")
import sys, os, ast, json, subprocess, shutil, random, re, threading
from concurrent.futures import ThreadPoolExecutor
PY='/opt/venv/bin/python'
ENV=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig',
         OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VERIF_SEED='1', VERIF_TIER='quick')
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
FILES={'WindTurbine':'C09 C10 C08 C07 C22 C06 C01 C05 C02 C25 C23 C31 C04 C03 C32 C33 C35'.split(), 'WindFarm':'C26 C05 C04 C03 C02 C28'.split(),
 'Solver':'C22 C23 C24 C25 C02 C11 C01'.split(), 'VortexCylinder':'C12 C27 C28 C18 C14 C11 C08 C25 C29'.split(),
 'VortexCylinderSkewed':'C13 C14 C15 C28 C30 C08 C11 C29 C25'.split(), 'VortexDoublet':'C17 C18 C11 C25 C29 C02'.split(),
 'VortexLine':'C15 C11 C25 C29 C13'.split(),'VortexPoint':['C21','C02','C36'],'VortexRing':['C16','C11','C25','C29'],'elliptic':['C20','C12','C11','C30'],'SelfSimilar':['C19','C09','C11','C25'],
 'article_blockage/helper_functions':'C31 C36 C38 C33 C37'.split(), 'plotting_functions':['C38'], '../coupling_examples/helper_functions':['C38','C31']}
if os.environ.get('FILT'): FILES={k:v for k,v in FILES.items() if re.search(os.environ['FILT'],k)}
CMP={ast.Lt:['<=','>='],ast.LtE:['<','>'],ast.Gt:['>=','<='],ast.GtE:['>','<'],ast.Eq:['!='],ast.NotEq:['=='],ast.Is:['is not'],ast.IsNot:['is']}
BIN={ast.Add:['-'],ast.Sub:['+'],ast.Mult:['/'],ast.Div:['*'],ast.Pow:['*']}
def seg(lines,n): return sum(len(l) for l in lines[:n.lineno-1])+len(lines[n.lineno-1].encode()[:n.col_offset].decode()), sum(len(l) for l in lines[:n.end_lineno-1])+len(lines[n.end_lineno-1].encode()[:n.end_col_offset].decode())
def mutants(name):
    f='/repo/wiz/%s.py'%name; s=open(f).read(); lines=s.splitlines(True); t=ast.parse(s); out=[]
    skip=[]
    for n in ast.walk(t):
        if isinstance(n,ast.ClassDef) and n.name.startswith('Test'): skip.append((n.lineno,n.end_lineno))
        if isinstance(n,ast.FunctionDef) and n.name in('getModels','getModelsCMAP','rsquare'): skip.append((n.lineno,n.end_lineno))
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and getattr(n.value.func,'id','')=='print': skip.append((n.lineno,n.end_lineno))
        if isinstance(n,ast.Raise): skip.append((n.lineno,n.end_lineno))
        if isinstance(n,ast.If) and isinstance(n.test,ast.Compare) and getattr(n.test.left,'id','')=='__name__': skip.append((n.lineno,n.end_lineno))
    def add(n,a,b,new,kind):
        if any(x<=n.lineno<=y for x,y in skip): return
        out.append(dict(file=name,line=n.lineno,kind=kind,a=a,b=b,old=s[a:b],new=new,src=lines[n.lineno-1].strip()[:140]))
    for n in ast.walk(t):
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            _,a=seg(lines,n.left); b,_=seg(lines,n.comparators[0])
            for o in CMP.get(type(n.ops[0]),[]):
                # keep brackets around the operands
                txt=s[a:b]; m=re.search(r'(<=|>=|==|!=|<|>|is not|is)',txt)
                if m: add(n,a+m.start(),a+m.end(),o,'cmp')
        if isinstance(n,ast.BinOp):
            _,a=seg(lines,n.left); b,_=seg(lines,n.right); txt=s[a:b]
            m=re.search(r'(\*\*|\+|-|\*|/)',txt)
            for o in BIN.get(type(n.op),[]):
                if m: add(n,a+m.start(),a+m.end(),o,'bin')
        if isinstance(n,ast.AugAssign):
            _,a=seg(lines,n.target); b,_=seg(lines,n.value); txt=s[a:b]; m=re.search(r'(\+=|-=|\*=|/=)',txt)
            if m: add(n,a+m.start(),a+m.end(),{'+=':'-=','-=':'+=','*=':'/=','/=':'*='}[m.group()],'aug'); add(n,a+m.start(),a+m.end(),'=','augdrop')
        if isinstance(n,ast.Constant) and type(n.value) in (int,float):
            a,b=seg(lines,n); v=n.value
            add(n,a,b,repr(v+1) if type(v) is int else repr(v*1.02) if v!=0 else '1.0','const')
            if type(v) is float and 0<abs(v)<1e-3: add(n,a,b,repr(v*1e3),'const'); add(n,a,b,'0.0','const')
        if isinstance(n,ast.Constant) and type(n.value) is bool:
            a,b=seg(lines,n); add(n,a,b,repr(not n.value),'bool')
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.USub,ast.Not,ast.Invert)):
            a,b=seg(lines,n); c,d=seg(lines,n.operand); add(n,a,b,'('+s[c:d]+')','unary')
        if isinstance(n,ast.BoolOp):
            _,a=seg(lines,n.values[0]); b,_=seg(lines,n.values[1]); txt=s[a:b]; m=re.search(r'\b(and|or)\b',txt)
            if m: add(n,a+m.start(),a+m.end(),{'and':'or','or':'and'}[m.group()],'boolop')
        if isinstance(n,ast.Assign) and any(isinstance(x,(ast.Subscript,ast.Attribute)) for x in n.targets):
            a,b=seg(lines,n); add(n,a,b,'pass','drop')
        if isinstance(n,(ast.If,ast.While)) :
            a,b=seg(lines,n.test); add(n,a,b,'not ('+s[a:b]+')','neg')
        if isinstance(n,ast.Call):
            fn=n.func.attr if isinstance(n.func,ast.Attribute) else getattr(n.func,'id','')
            sw={'sin':'cos','cos':'sin','logical_and':'logical_or','logical_or':'logical_and','abs':'positive','zeros':'ones','ellipk':'ellipe','ellipe':'ellipk','amax':'amin','asarray':'array','array':'asarray'}
            if fn in sw and isinstance(n.func,ast.Attribute):
                a,b=seg(lines,n.func); add(n,b-len(fn),b,sw[fn],'call')
            for k in n.keywords:
                if k.arg and len(n.args)+len(n.keywords)>1 and k.arg not in ('end',):
                    a=seg(lines,k.value); 
                    pre=s[:a[0]].rstrip(); pre=pre[:-1].rstrip() if pre.endswith('=') else None
                    if pre and pre.endswith(k.arg):
                        st=len(pre)-len(k.arg); pc=s[:st].rstrip()
                        if pc.endswith(','): add(k.value,len(pc)-1,a[1],'','kwdrop')
    seen=set(); res=[]
    for m in out:
        k=(m['a'],m['b'],m['new'])
        if k in seen: continue
        seen.add(k)
        try: compile(s[:m['a']]+m['new']+s[m['b']:],f,'exec')
        except SyntaxError: continue
        res.append(m)
    return res
LOCK=threading.Lock()
def apply(m,cp):
    f=cp+'/wiz/%s.py'%m['file']; s=open('/repo/wiz/%s.py'%m['file']).read()
    open(f,'w').write(s[:m['a']]+m['new']+s[m['b']:])
def copyrepo(cp):
    shutil.rmtree(cp,ignore_errors=True); subprocess.run(['cp','-a','/repo',cp],check=True); shutil.rmtree(cp+'/.git',ignore_errors=True)
def tests(m,cp,w):
    apply(m,cp)
    env=dict(ENV,PYTHONPATH=cp); x='/tmp/mut/%s.xml'%w; j='/tmp/mut/%s.json'%w
    try:
        subprocess.run([PY,'-m','pytest','-q','-p','no:cacheprovider','--tb=no','-W','default','--timeout=120','--continue-on-collection-errors','-o','junit_family=xunit2','-o','python_files=test_*.py SelfSimilar.py','--rootdir='+cp,'--junitxml='+x,'wiz'],cwd=cp,env=env,capture_output=True,timeout=200)
        subprocess.run(['python3','/opt/vp/results.py',j,'junit:'+x],cwd=cp,capture_output=True)
        R=json.load(open(j)); ps=set(R.get('passed',[])) if isinstance(R.get('passed'),list) else {k for k,v in R.get('results',R).items() if v in('passed','pass',True)}
        return len(STABLE-ps)
    except subprocess.TimeoutExpired: return -1
    finally:
        shutil.copy('/repo/wiz/%s.py'%m['file'],cp+'/wiz/%s.py'%m['file'])
def save(f,L):
    with LOCK: json.dump(L,open(f+'.tmp','w'),indent=0); os.replace(f+'.tmp',f)
def pool(n,fn,todo):
    import queue; q=queue.Queue(); [q.put(x) for x in range(n)]
    def g(m):
        w=q.get()
        try: fn(m,w)
        finally: q.put(w)
    with ThreadPoolExecutor(n) as ex: list(ex.map(g,todo))
def main():
    cmd,f=sys.argv[1:3]
    if cmd=='list':
        L=[]; 
        for n in FILES: L+=mutants(n)
        random.Random(1).shuffle(L); save(f,L)
        from collections import Counter; print(len(L),Counter(m['file'] for m in L))
        return
    L=json.load(open(f)); N=int(os.environ.get('W','6'))
    if cmd=='tests':
        for w in range(N): copyrepo('/tmp/mut/c%d'%w)
        def fn(m,w):
            m['lost']=tests(m,'/tmp/mut/c%d'%w,w); save(f,L)
        pool(N,fn,[m for m in L if 'lost' not in m])
        for w in range(N): shutil.rmtree('/tmp/mut/c%d'%w)
    if cmd=='check':
        V=sys.argv[3] if len(sys.argv)>3 else '/verif'
        lim=int(os.environ.get('LIM','100000'))
        for w in range(N):
            copyrepo('/tmp/mut/c%d'%w); shutil.rmtree('/tmp/mut/v%d'%w,ignore_errors=True); subprocess.run(['git','clone','-q',V,'/tmp/mut/v%d'%w],check=True)
        def fn(m,w):
            cp='/tmp/mut/c%d'%w; apply(m,cp); m['runs']={}
            try:
                for c in m.get('checks',FILES[m['file']]):
                    try: p=subprocess.run(['/tmp/mut/v%d/bin/check'%w,c],cwd='/tmp/mut/v%d'%w,env=dict(ENV,VERIF_REPO=cp),capture_output=True,text=True,timeout=900); rc=p.returncode
                    except subprocess.TimeoutExpired: rc=124
                    m['runs'][c]=rc
                    if rc!=0: m['caught']=c; break
                else: m['caught']=''
            finally: shutil.copy('/repo/wiz/%s.py'%m['file'],cp+'/wiz/%s.py'%m['file'])
            save(f,L); print(m['caught'] or 'MISSED',m['file'],m['line'],m['kind'],repr(m['old'][:40]),'->',repr(m['new'][:40]),'|',m['src'],flush=True)
        pool(N,fn,[m for m in L if m.get('lost')==0 and 'caught' not in m][:lim])
        for w in range(N): shutil.rmtree('/tmp/mut/c%d'%w); shutil.rmtree('/tmp/mut/v%d'%w)
if __name__=='__main__': main()
