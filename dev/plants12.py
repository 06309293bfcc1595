exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
exec(open('/verif/dev/plants9.py').read().split("PL='''")[0].split('\n',1)[1])
exec("PL='''"+open('/verif/dev/plants9.py').read().split("PL='''")[1].split("'''")[0]+"'''")
exec("ST='''"+open('/verif/dev/plants7.py').read().split("ST='''")[1].split("'''")[0]+"'''")
exec("AD='''"+open('/verif/dev/plants6.py').read().split("AD='''")[1].split("'''")[0]+"'''")
exec("MD='''"+open('/verif/dev/plants6.py').read().split("MD='''")[1].split("'''")[0]+"'''")
P('c36-err-inplace','C36',HF,[("""    U1probe=U1probe/U1[-1]
    U2probe=U2probe/U1[-1]
    relerr""","""    ref=U1[-1]
    for U in (U1,U2): U/=ref
    U1probe = np.interp(Xprobe, X, U1)
    U2probe = np.interp(Xprobe, X, U2)
    relerr""")],
 'the profiles given are used again by the caller','the error measure rescales the profiles of the caller',
 MD+'''
X=np.array([-4.,-2.,0.]); u=np.array([1.,.9,.8]); v=np.array([1.1,.9,.8]); H.relerrinduction(X,u,v)
sys.exit(0 if u[0]==1. and v[0]==1.1 else 1)''')
P('c36-pairs','C36',HF,[("    return lambda x,y: interpolant(x,y,si.interp2d(*args,**kwargs))","    f = si.interp2d(*args,**kwargs)\n    return lambda x,y: interpolant(x,y,f) if np.size(x)!=np.size(np.unique(x)) or np.ndim(x)!=1 else np.diag(f(x,y)) if np.size(x)>1 else interpolant(x,y,f)")],
 'pairs of distinct coordinates not sorted','the evaluation on the grid sorts the coordinates, the pairs are mixed up',
 MD+AD+'''
quiet(a.setupInterpolants); u=a.fW(np.zeros(3),np.array([1.,-2,.2]),np.array([-3.,3,.5])); sys.exit(0 if np.allclose(u[2],[a.W[0,3],a.W[4,0],a.W[2,2]]) else 1)''')
P('c38-minzero','C38',HF,[("""    if component=='Axial':
        Speed=u
    elif component=='Vorticity':
        Speed=data.O
    else:
        Speed=np.sqrt(u**2+v**2)
    if minSpeed is None:""","""    if component=='Axial':
        Speed=u
    elif component=='Vorticity':
        Speed=data.O
    else:
        Speed=np.sqrt(u**2+v**2)
    if not minSpeed:""")],
 'a scale that starts at zero','the scale asked for is ignored',
 PL+'''
    d.W,d.U,d.V,d.O=[rng.rand(4,3)+.2 for _ in range(4)]
    return d
im,ax,fig=H.plotPlane(plane(),minSpeed=0,maxSpeed=2)
sys.exit(0 if tuple(im.get_clim())==(0,2) else 1)''')
P('c38-stream-flip','C38',HF,[("        sp=ax.streamplot(vx,vy,U,V,color='k',start_points=start.T","        sp=ax.streamplot(vx,vy,U,abs(V),color='k',start_points=start.T")],
 'streamlines drawn where the lateral velocity is negative','they are deflected to the wrong side',
 PL+'''
    return d
H.streamQuiver=lambda *a,**k: None
d=types.SimpleNamespace(); x=np.linspace(-6,4,11); y=np.linspace(-3,3,7)
d.Z,d.X=np.meshgrid(x,y,indexing='ij'); d.Y=d.X*0; d.W=d.Z*0+1; d.U=d.Z*0-.1; d.V=d.U; d.O=d.U
im,ax,fig=H.plotPlane(d,nStreamlines=3,Horizontal=True)
import matplotlib.collections as mc
s=[q for c in ax.collections if isinstance(c,mc.LineCollection) for q in c.get_segments()]
sys.exit(0 if all((q[1,1]-q[0,1])*(q[1,0]-q[0,0])<=1e-12 for q in s) else 1)''')
P('c38-stream-seeds','C38',HF,[("            yseed=np.linspace(min(vy)*0.9,max(vy)*0.9,nStreamlines)\n            start=np.array([yseed*0-4,yseed])","            yseed=np.linspace(0,max(vy)*0.9,nStreamlines)\n            start=np.array([yseed*0-4,yseed])")],
 'streamlines of a horizontal plane','they start on one side only',
 PL+'''
    return d
H.streamQuiver=lambda *a,**k: None
d=types.SimpleNamespace(); x=np.linspace(-6,4,11); y=np.linspace(-3,3,7)
d.Z,d.X=np.meshgrid(x,y,indexing='ij'); d.Y=d.X*0; d.W=d.Z*0+1; d.U=d.Z*0; d.V=d.U; d.O=d.U
im,ax,fig=H.plotPlane(d,nStreamlines=3,Horizontal=True)
import matplotlib.collections as mc
s=[q for c in ax.collections if isinstance(c,mc.LineCollection) for q in c.get_segments()]
sys.exit(0 if min(q[0,1] for q in s)<-2 else 1)''')
P('c33-match-yaw','C33',HF,[("        WT.gamma_t=np.array([-(U0*np.cos(VC.Yaw*np.pi/180)-u_center)*2])","        WT.gamma_t=np.array([-(U0-u_center)*2])")],
 'strength matched to the centre velocity of a yawed plane','the wind across the rotor is taken without the yaw','''
import io,contextlib,types
import matplotlib; matplotlib.use('Agg')
import wiz.article_blockage.helper_functions as H
a=H.OutputAD(); a.Horizontal=True; a.Vertical=False; a.x=np.array([-1.,0,1]); a.z=np.array([-1.,0,1]); a.y=0
a.X,a.Z=np.meshgrid(a.x,a.z); a.W=a.X*0+.7; a.U=a.X*0; a.V=a.X*0; a.CT,a.HH,a.Lambda,a.Yaw=.5,99,99,30
with contextlib.redirect_stdout(io.StringIO()): v=H.setupModel(a,MatchMidVel=True)
sys.exit(0 if abs(float(v.WT.gamma_t[0])+2*(np.cos(np.pi/6)-.7))<1e-9 else 1)''')
P('c33-chi-ct','C33',HF,[("    chi= VC.Yaw*(1+0.3*(1-np.sqrt(1-VC.CT))); # deg","    chi= VC.Yaw*(1+0.3*(1-np.sqrt(1-np.mean(Ct_AD)))); # deg")],
 'finite tip-speed ratio with yaw','the wake skew uses the mean of the loading with its root cut-off','''
import io,contextlib
import matplotlib; matplotlib.use('Agg')
import wiz.article_blockage.helper_functions as H
with contextlib.redirect_stdout(io.StringIO()): v=H.setupModel(CT=.6,HH=99,Lambda=6,Yaw=20,Horizontal=True)
sys.exit(0 if abs(float(v.WT.chi)-np.radians(20*(1+.3*(1-np.sqrt(.4)))))<1e-9 else 1)''')
P('c34-angle-red','C34',WT,[("    c,s=np.cos(theta),np.sin(theta)\n    R[0,0]","    c=np.cos(theta)\n    s=np.sqrt(1-c**2)*np.sign(np.sin(theta))\n    R[0,0]")],
 'a small rotation','the sine is computed from the cosine, which loses small angles','''
from wiz.WindTurbine import RotMat_AxisAngle
M=RotMat_AxisAngle(np.array([0,0,1.]),1e-7)
sys.exit(0 if abs(M[1,0]-1e-7)<1e-10 else 1)''')
P('c11-chunk','C11',WT,[("        uxc = np.zeros(Xg.shape)\n","        if np.size(Xg)>50000: # memory: by parts\n            n=np.size(Xg)//2\n            P=[np.asarray(a).ravel() for a in (Xg,Yg,Zg)]\n            U=[self.compute_u(*[p[s] for p in P], only_ind=only_ind, longi=longi, tang=tang, root=root, no_wake=no_wake, ground=ground, Model=Model) for s in (slice(0,n),slice(n,None))]\n            return tuple(np.concatenate(u).reshape(np.shape(Xg)) for u in zip(*U))\n        uxc = np.zeros(np.shape(Xg))\n")],
 'more than 50000 points at once with a far-field radius','the far-field radius is forgotten in large requests','''
from wiz.WindTurbine import WindTurbine
w=WindTurbine(R=1.,Model='VCFF'); w.update_loading(Ct=.6)
z=np.linspace(-8,-1.5,60000); x=z*0+.3
u=w.compute_u(x,x*0,z,R_far_field=2)[2][::4000]; v=w.compute_u(x[::4000],x[::4000]*0,z[::4000],R_far_field=2)[2]
sys.exit(0 if np.allclose(u,v,atol=1e-10) else 1)''')
P('c04-unloaded','C04',WF,[("        for WT in self:\n            ux1","        for WT in [w for w in self if w.gamma_t is not None]:\n            ux1")],
 'a farm with a turbine that has no loading yet','the turbine is left out without notice','''
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
f=WindFarm(); a=WindTurbine(R=1.); a.update_loading(Ct=.5); f.append(a); f.append(WindTurbine(R=1.,r_hub=[3,0,0]))
try: f.velocity_field(np.zeros(2),np.ones(2),np.ones(2)); ok=False
except Exception: ok=True
sys.exit(0 if ok else 1)''')
P('c01-frame-yaw','C01',WT,[("        self.update_yaw_pos(0)\n","        self.update_yaw_pos(getattr(self,'yaw_pos',0))\n")],
 'the frame is set again after yawing','the yaw of the former frame is kept','''
from wiz.WindTurbine import WindTurbine
a=WindTurbine(R=1.); a.update_yaw_pos(.5); a.set_yaw0_coord([1,0,0],[0,0,1]); a.update_wind([10,0,0])
sys.exit(0 if abs(a.yaw_error)<1e-9 else 1)''')
P('c09-tang-gl','C09',WT,[("            if Model =='VC':\n                nr   = len(self.r)","            if Model in ['VC','VCFF']:\n                nr   = len(self.r)")],
 'several cylinders asked for with the far-field model','answered with another model instead of being refused','''
from wiz.WindTurbine import WindTurbine
a=WindTurbine(R=1.); a.update_loading(r=np.linspace(0,1,5),Ct=np.ones(5)*.5,nCyl=3)
try: a.compute_u(np.ones(1),np.ones(1),np.ones(1),Model='VCFF'); ok=False
except NotImplementedError: ok=True
sys.exit(0 if ok else 1)''')
