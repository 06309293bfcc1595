exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
HF='wiz/article_blockage/helper_functions.py'
ST='''
import io, contextlib, tempfile, shutil, pickle, atexit
import matplotlib; matplotlib.use('Agg')
import scipy.io
import wiz.article_blockage.helper_functions as H
def quiet(f,*a,**k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a,**k)
top=tempfile.mkdtemp(); atexit.register(shutil.rmtree,top,True)
for d in ('data/Ground','data/ProjCorr','work'): os.makedirs(os.path.join(top,d))
os.chdir(os.path.join(top,'work'))
rng=np.random.default_rng(0)
x=np.array([-2,-.5,0,.4,1.5]); z=np.array([-3,-1.5,0,.6,2.])
def mat(base):
    X,Z=np.meshgrid(x,z); F=[rng.uniform(.5,1.2,X.shape) for _ in range(3)]
    scipy.io.savemat('../data/AD_%s.mat'%base,dict(x=X,z=Z,u=F[0],v=F[1],w=F[2])); return F
'''
P('c37-yaw-sign','C37',HF,[("    if Lambda>20:\n        Lambda=99\n    if HH>9:\n        HH=9.9\n","    if Lambda>20:\n        Lambda=99\n        Yaw=-abs(Yaw) # stored for one side only\n    if HH>9:\n        HH=9.9\n")],
 'constant-thrust planes stored for both signs of the yaw angle','a positive yaw angle loads the plane of the negative one',
 ST+'''
a=mat('CT040_HH99_Lambda99_Yaw20'); b=mat('CT040_HH99_Lambda99_Yaw-20')
p=quiet(H.loadPlane,.4,9999.,np.inf,True,20)
sys.exit(0 if np.array_equal(p.W,b[2]) and p.Yaw==20 else 1)''')
P('c37-lam20','C37',HF,[("    if Lambda>20:\n        Lambda=99\n    if HH>9:","    if Lambda>=20:\n        Lambda=99\n    if HH>9:")],
 'a tip-speed ratio of exactly 20','the constant-thrust plane is handed out instead of the one with swirl',
 ST+'''
a=mat('CT040_HH99_Lambda99_Yaw00'); b=mat('CT040_HH99_Lambda20_Yaw00')
p=quiet(H.loadPlane,.4,9999.,20,True,0)
sys.exit(0 if np.array_equal(p.W,b[2]) else 1)''')
P('c37-slice-above','C37',HF,[("            k = np.argmin(np.abs(zslice-z0))\n","            k = min(np.searchsorted(z0,zslice-1e-9),len(z0)-1)\n")],
 'a hub height between two stored heights, closer to the lower one','the slice above the hub height is handed out',
 ST+'''
u=rng.uniform(.5,1,(5,5,4)); z1=np.array([0,1.,2.,3.])
np.savez('../data/ProjCorr/Layout1x1_CT040_s.npz',x1=z,y1=x,z1=z1,u=u,v=u*2,w=u*3)
g=quiet(H.OutputProj,.4,HH=1.3,Horizontal=True,suffix='_s')
sys.exit(0 if np.array_equal(g.W,u[:,:,1]) else 1)''')
P('c37-model-reuse','C37',HF,[("    for itheta,(theta,roff) in enumerate(zip(angles,Roffsets)):\n","    VCs={} # one turbine for all directions\n    for itheta,(theta,roff) in enumerate(zip(angles,Roffsets)):\n"),
  ("                VCV  = setupModel(AD,MatchMidVel=MatchMidVel, Model=Model['name'])\n","                if MatchMidVel not in VCs:\n                    VCs[MatchMidVel] = setupModel(AD,MatchMidVel=MatchMidVel, Model=Model['name'])\n                VCV  = VCs[MatchMidVel]\n")],
 'two turbine models compared in the same call','the second model is evaluated with the turbine of the first',
 ST+'''
F=mat('CT040_HH99_Lambda99_Yaw00')
a,_=quiet(H.getModelsRelErr,[0.],[.4],np.array([-1.5,.6]),False,.4,[dict(name='VC'),dict(name='SS')],False) if 0 else (None,None)
u=rng.uniform(.5,1,(5,5,5)); np.savez('../data/ProjCorr/Layout1x1_CT040.npz',x1=z,y1=x,z1=x+999,u=u,v=u,w=u)
f=lambda *n: quiet(H.getModelsRelErr,[0.],[.4],np.array([-1.5,-3]),False,.4,[dict(name=k) for k in n],False)[0]
sys.exit(0 if np.allclose(f('VC','SS')[1],f('SS')[0],rtol=1e-9) else 1)''')
P('c37-mid-origin','C37',HF,[("            v,iy0 = find_nearest(self.y,0)\n            v,iz0 = find_nearest(self.z,0)\n            W0 = self.W[iz0,iy0]\n        return W0","            v,iy0 = find_nearest(self.y,0)\n            v,iz0 = find_nearest(self.z,0)\n            W0 = np.interp(0,self.z,self.W[:,iy0])\n        return W0")],
 'a vertical plane whose z axis has no value at exactly 0','the centre value is interpolated instead of the stored one',
 ST+'''
p=H.OutputAD(); p.Horizontal=False; p.Vertical=True; p.y=x; p.z=z+.1; p.W=rng.uniform(.5,1,(5,5))
sys.exit(0 if p.fCenter()==p.W[2,2] else 1)''')
P('c37-sim-spacing','C37',HF,[("            x=np.unique(WT_pos[:,0])/S\n","            x=np.unique(np.round(WT_pos[:,0]/S)) # row numbers\n")],
 'rows of turbines that are not a whole number of spacings apart','the positions of the rows are rounded to whole spacings',
 ST+'''
d=dict(xyz=rng.normal(size=(4,3,2)),uvw=rng.normal(size=(4,3,2)),xyz_wt=np.array([[0,0,1.5],[7.,0,1.5]]),ct_wt=np.array([.4,.5]))
pickle.dump({'d5_1x2_ct0.40_hh1.50':d},open('../data/CFD_AD_Farm_lines_All.pkl','wb'))
L=quiet(H.OutputADLines); g,c=quiet(L.getSimCTs,5,'1x2',.4,1.5)
sys.exit(0 if np.allclose(g,[0,1.4]) else 1)''')
P('c37-ground-y','C37',HF,[("            if HH==2.0:\n","            if HH>=2.0 or Lambda==6:\n")],
 'vertical planes with ground and swirl at height 1.5, next to planes at height 2','the vertical axis of the other height is used',
 ST+'''
n=5
np.savetxt('../data/Ground/Vertical_Z.csv',z,delimiter=','); np.savetxt('../data/Ground/Vertical_Y_HH15.csv',x,delimiter=','); np.savetxt('../data/Ground/Vertical_Y_HH20.csv',x-.2,delimiter=',')
for c in ('U','V','W','Om'): np.savetxt('../data/Ground/CT040_HH15_Lambda06_Yaw00_Vertical_%s.csv'%c,rng.normal(size=(5,5)),delimiter=',')
p=quiet(H.loadPlane,.4,1.5,6,False,0)
sys.exit(0 if np.allclose(p.y,x) else 1)''')
