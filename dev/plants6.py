exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
HF='wiz/article_blockage/helper_functions.py'
MD='''
import matplotlib; matplotlib.use('Agg')
import io, contextlib
from wiz.WindTurbine import *
from wiz.WindFarm import WindFarm
import wiz.article_blockage.helper_functions as H
def quiet(f,*a,**k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a,**k)
'''
# C32
P('c32-lam','C32',WT,[("        self.Lambda=Lambda\n        self.Ground=Ground","        self.Lambda=Lambda if Ct is None else np.inf\n        self.Ground=Ground"),("            self.Lambda=Lambda\n        else:","            self.Lambda=Lambda\n        else:") if 0 else ("        self.update_wind(U0)\n        self.name","        self.update_wind(U0)\n        self.name")] [:1],
 'thrust coefficient and a low tip-speed ratio both given to the constructor','the swirl is dropped',
 PT+'''
a=WindTurbine(R=20,Ct=0.6,Lambda=5.); b=WindTurbine(R=20,Lambda=5.); b.update_loading(Ct=0.6)
sys.exit(0 if close(a.compute_u(X,Y,Z,longi=True,root=True),b.compute_u(X,Y,Z,longi=True,root=True)) else 1)''')
P('c32-order','C32',WT,[("        self.set_yaw0_coord(e_shaft_yaw0,e_vert)\n        self.update_position(r_hub)\n        self.update_wind(U0)\n","        self.U0_g=np.array([[0.],[0.],[10.]]) # before the wind is known\n        self.set_yaw0_coord(e_shaft_yaw0,e_vert)\n        self.update_position(r_hub)\n        if np.any(np.asarray(U0,dtype=float).ravel()!=self.U0_g.ravel()) and np.ndim(U0)==1:\n            self.update_wind(U0)\n")],
 'the wind is given to the constructor as a column or row (two-dimensional), not a list','the wind given is ignored',
 PT+'''
a=WindTurbine(R=20,U0=np.array([[3.],[0],[8.]])); b=WindTurbine(R=20); b.update_wind([3.,0,8.])
a.update_loading(Ct=.5); b.update_loading(Ct=.5)
sys.exit(0 if close(a.compute_u(X,Y,Z),b.compute_u(X,Y,Z)) else 1)''')
P('c32-ground-model','C32',WT,[("        self.Ground=Ground # Ground effect will be included in calculation of induced velocity\n","        self.Ground=Ground and Model=='VC' # Ground effect will be included in calculation of induced velocity\n")],
 'a turbine made with ground effect and a model other than VC','the ground effect given to the constructor is dropped for those models',
 PT+'''
a=WindTurbine(R=20,r_hub=[0,60.,0],Ground=True,Model='VD'); b=WindTurbine(R=20,r_hub=[0,60.,0],Model='VD'); b.Ground=True
a.update_loading(Ct=.5); b.update_loading(Ct=.5)
sys.exit(0 if close(a.compute_u(X,Y,Z),b.compute_u(X,Y,Z)) else 1)''')
# C33
P('c33-ground','C33',HF,[("    Ground=VC.HH<9\n","    Ground=VC.HH<9 and not VC.Yaw\n")],
 'a yawed turbine close to the ground','no ground effect',
 MD+'''
v=quiet(H.setupModel,CT=.6,HH=2,Lambda=np.inf,Horizontal=True,Yaw=-20)
sys.exit(0 if v.WT.Ground else 1)''')
P('c33-vert','C33',HF,[("            y=r+self.h_hub\n            z=r*0+z0\n            x=r*0\n","            y=np.abs(r)+self.h_hub # symmetric about the hub\n            z=r*0+z0\n            x=r*0\n")],
 'a vertical radial profile below the hub, with ground effect or yaw','values above the hub are returned',
 MD+'''
v=quiet(H.setupModel,CT=.6,HH=1.5,Lambda=np.inf,Horizontal=False,Yaw=0)
r=np.array([-.5,-1.2]); a=quiet(v.fRadial,r,-1.); b=quiet(v.WT.compute_u,r*0,r+1.5,r*0-1.)
sys.exit(0 if np.allclose(a,b) else 1)''')
P('c33-mid-yaw','C33',HF,[("        WT.gamma_t=np.array([-(U0*np.cos(VC.Yaw*np.pi/180)-u_center)*2])","        WT.gamma_t=np.array([-(U0-u_center)*2])")],
 'velocity matched at the centre of a yawed turbine','the strength does not match the velocity at the centre',
 MD+'''
class A: pass
a=A(); a.CT,a.HH,a.Lambda,a.Yaw,a.Horizontal=.6,999,np.inf,30,True; a.fCenter=lambda: .7
v=quiet(H.setupModel,a,MatchMidVel=True)
sys.exit(0 if abs(v.WT.gamma_t[0]+2*(np.cos(np.pi/6)-.7))<1e-9 else 1)''')
P('c33-cts','C33',HF,[("    for WT,CT in zip(WF,CTs.T.ravel()):","    for WT,CT in zip(WF,CTs.T.ravel() if nx!=ny else CTs.ravel()):")],
 'a square farm with different thrusts','the thrust coefficients of a square farm are given to the wrong turbines',
 MD+'''
C=np.array([[.1,.2],[.3,.4]])
f=quiet(H.VCFarmFromFloris,C,999,5.); g=[float(np.ravel(w.gamma_t)[0]) for w in f]
x=[w.r_hub.ravel() for w in f]; k=[i for i in range(4) if x[i][0]==0 and x[i][1]==max(q[1] for q in x)][0]
sys.exit(0 if abs(g[k]+(1-np.sqrt(1-.3)))<1e-9 else 1)''')
P('c33-line-ground','C33',HF,[("    Ground   = r_hub[2]<10         # Add ground effect\n","    Ground   = np.mean(np.asarray(WT_pos)[:,2])<10 # Add ground effect\n")],
 'a farm with turbines of different heights whose last one is low and the mean height is not','no ground effect on the lines',
 MD+'''
xyz=np.zeros((3,3,2)); xyz[:,0,:]=[[-2.],[-1.],[4.]]; xyz[:,2,:]=.6
d=dict(xyz_wt=np.array([[0,0,40.],[5.,0,1.]]),ct_wt=np.array([.5,.6]),xyz=xyz)
u,_=quiet(H.ADFarm2VCFarm,d,'f')
F=WindFarm()
for p,ct in zip(d['xyz_wt'],d['ct_wt']):
    w=WindTurbine(R=.5,e_shaft_yaw0=[1,0,0],e_vert=[0,0,1],r_hub=p); w.update_wind([1,0,0]); w.update_loading(Ct=ct); F.append(w)
e=F.velocity_field(xyz[:,0,0],xyz[:,1,0],xyz[:,2,0],U0=[1,0,0],ground=True)[0]
sys.exit(0 if np.allclose(u,e,atol=1e-10) else 1)''')
P('c33-chi','C33',HF,[("    chi= VC.Yaw*(1+0.3*(1-np.sqrt(1-VC.CT))); # deg\n","    chi= VC.Yaw*(1+0.3*(1-np.sqrt(1-Ct_AD.mean()))); # deg\n")],
 'yawed turbine of low tip-speed ratio (thrust cut near the root)','the deflection is that of the mean thrust of the stations',
 MD+'''
v=quiet(H.setupModel,CT=.8,HH=999,Lambda=6,Horizontal=True,Yaw=20)
sys.exit(0 if abs(v.WT.chi-np.radians(20*(1+.3*(1-np.sqrt(.2)))))<1e-9 else 1)''')
# C34
P('c34-thr','C34',WT,[("    if abs(u[0])>=0.57:","    if abs(u[0])>=0.05:")],
 'x component between 0.05 and 0.57 and others that... a vector along which the first branch is still fine','nothing',
 MD+'''sys.exit(0)''') if 0 else None
P('c34-norm','C34',WT,[("    u=(u/np.linalg.norm(u)).ravel()\n    if","    u=np.asarray(u,dtype=float)\n    u=(u/max(np.linalg.norm(u),1e-12)).ravel()\n    if")],
 'a non-zero vector shorter than 1e-12','refused as if it were zero',
 MD+'''
v=orth_vect(np.array([0.,3e-13,0.])); sys.exit(0 if abs(np.linalg.norm(v)-1)<1e-9 else 1)''')
P('c34-rot-wrap','C34',WT,[("    ux,uy,uz=u\n    c,s=np.cos(theta),np.sin(theta)\n","    ux,uy,uz=u\n    c=np.cos(theta); s=np.sign(np.mod(theta+np.pi,2*np.pi)-np.pi)*np.sqrt(1-c**2)\n")],
 'angles close to a multiple of pi (cancellation in the sine)','the sine loses half of its digits; small rotations below 1e-8 vanish',
 MD+'''
M=RotMat_AxisAngle(np.array([0,0,1.]),1e-8); sys.exit(0 if abs(M[1,0]-1e-8)<1e-14 else 1)''')
P('c34-transT','C34',WT,[("    Za=T_a2b[0,2]*Xb+T_a2b[1,2]*Yb+T_a2b[2,2]*Zb\n    return Xa,Ya,Za","    Za=np.linalg.inv(T_a2b)[2,0]*Xb+np.linalg.inv(T_a2b)[2,1]*Yb+T_a2b[2,2]*Zb\n    return Xa,Ya,Za")],
 'a matrix that is not a rotation','inverse in place of the transpose',
 MD+'''
M=np.array([[2.,1,0],[0,3,1],[1,0,1]]); a=transform_T(M,1.,2.,3.); sys.exit(0 if np.allclose(a,M.T.dot([1,2,3])) else 1)''')
# C35
P('c35-yawerr','C35',WT,[("        s+=' - yaw_err: {} deg\\n'.format(self.yaw_error*180/np.pi)\n        if not short","        s+=' - yaw_err: {} deg\\n'.format(np.arccos(np.clip(np.dot(self.U0_g.T/np.linalg.norm(self.U0_g),self.e_shaft_g),-1,1)).ravel()[0]*180/np.pi)\n        if not short")],
 'a negative yaw error','printed without its sign',
 MD+'''
a=WindTurbine(R=1); a.update_yaw_pos(-.3); t=[l for l in a.tostring().split('\\n') if 'yaw_err' in l][0]
sys.exit(0 if abs(float(t.split(':')[1].replace('deg',''))+np.degrees(.3))<1e-6 else 1)''')
P('c35-c2g','C35',WT,[("np.round(np.dot(self.T_wt2g,self.T_c2wt),4))\n        return s","np.round(np.dot(self.T_c2wt,self.T_wt2g),4))\n        return s")],
 'a yawed turbine whose vertical is not the second axis of its frame... ','the matrix printed is that of the wrong product',
 MD+'''
a=WindTurbine(R=1,e_shaft_yaw0=[1,0,0],e_vert=[0,0,1]); a.update_yaw_pos(.4)
t=a.tostring(short=False).split('T_c2g')[1].split('\\n',1)[1]; import re
M=np.array([float(x) for x in re.findall(r'-?\\d+\\.?\\d*(?:e-?\\d+)?',t)]).reshape(3,3)
sys.exit(0 if np.allclose(M,np.dot(a.T_wt2g,a.T_c2wt),atol=1e-3) else 1)''')
P('c35-farm-count','C35',WF,[("'.format(len(self))\n","'.format(len(set(id(WT) for WT in self)))\n")],
 'a farm holding the same turbine twice','counted once in the description',
 MD+'''
w=WindTurbine(R=1); f=WindFarm(); f.append(w); f.append(w)
sys.exit(0 if 'turbines: 2' in repr(f) else 1)''')
P('c35-shaft','C35',WT,[("np.round(self.e_shaft_g.T,4))","np.round(self.T_c2wt[:,2].T,4))")],
 'a yawed turbine','the shaft direction printed is that at zero yaw',
 MD+'''
a=WindTurbine(R=1); a.update_yaw_pos(.4); import re
t=[l for l in repr(a).split('\\n') if 'e_shaft' in l][0]
M=np.array([float(x) for x in re.findall(r'-?\\d+\\.?\\d*',t)])
sys.exit(0 if np.allclose(M,np.ravel(a.e_shaft_g),atol=1e-3) else 1)''')
# C36
AD='''
a=H.OutputAD(); a.Horizontal=False; a.Vertical=True; a.y=np.array([-2.,-1,0.2,1]); a.z=np.array([-3.,-.4,.5,2,3]); a.x=0
a.Y,a.Z=np.meshgrid(a.y,a.z); a.X=a.Y*0; g=np.random.default_rng(1); a.U,a.V,a.W=[g.normal(size=(5,4)) for _ in range(3)]; a.HH=1.5
'''
P('c36-near','C36',HF,[("    idx = (np.abs(array - value)).argmin()\n","    idx = min(np.searchsorted(array, value),len(array)-1)\n")],
 'a value that is not a coordinate of the plane, closer to the one below','the next coordinate is taken instead of the nearest',
 MD+'''
v,k=H.find_nearest(np.array([0.,1,2]),1.2); sys.exit(0 if k==1 else 1)''')
P('c36-vert','C36',HF,[("            U=W*0\n        else:\n            U=self._fU_Horz","            U=self._fU_Vert(Y,Z)\n        else:\n            U=self._fU_Horz")],
 'interpolated velocity of a vertical plane','the component normal to the plane is not zero',
 MD+AD+'''
quiet(a.setupInterpolants); u=a.fU(np.zeros(2),a.y[:2],a.z[:2]); sys.exit(0 if np.all(u[0]==0) else 1)''')
P('c36-rad','C36',HF,[("            r0 = self.Y[iz0,:]\n            U0 = self.U[iz0,:]","            r0 = self.Y[0,:]\n            U0 = self.U[min(iz0,self.U.shape[1]-1),:]")],
 'radial profile of a vertical plane with more rows than columns, far downstream','the x velocity is that of another row',
 MD+AD+'''
u=quiet(a.fRadial,a.y,3.); sys.exit(0 if np.allclose(u[0],a.U[4]) else 1)''')
P('c36-err','C36',HF,[("    Xprobe  = np.linspace(x1,x2,100)\n    U1probe = np.interp(Xprobe, X, U1)","    Xprobe  = np.linspace(max(x1,X[0]),min(x2,X[-1]),100)\n    U1probe = np.interp(Xprobe, X, U1)")],
 'an interval wider than the profile','the mean is taken over the common interval only',
 MD+'''
X=np.array([-4.,-2.,0.]); a=H.relerrinduction(X,np.array([1.,.9,.8]),np.array([1.1,.9,.8]))
q=np.linspace(-4.99,-1,100); u=np.interp(q,X,[1.,.9,.8]); v=np.interp(q,X,[1.1,.9,.8])
sys.exit(0 if abs(a-np.mean(abs(u-v)/u)*100)<1e-9 else 1)''')
PLANTS=[p for p in PLANTS if p]
