exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
P('c02-seterr','C02',VL,[("    norm_a      = np.sqrt(xa**2 + ya**2 + za**2)\n","    np.seterr(divide='ignore', invalid='ignore') # singular points are dealt with below\n    norm_a      = np.sqrt(xa*xa + ya*ya + za*za)\n")],
 'the error handling of numpy looked at, or relied on, after a call','the error handling of the whole process is changed','''
from wiz.VortexLine import vl_semiinf_u
np.seterr(all='raise'); vl_semiinf_u(1.,2.,3.,0.,0.,1.,1.,0,0)
sys.exit(0 if all(v=='raise' for v in np.geterr().values()) else 1)''')
P('c20-nearone','C20',EL,[("        b1 = rho > 0\n","        b1 = rho > 1e-13\n")],
 'a characteristic within 1e-13 of one','infinite, although the characteristic is below one','''
from wiz.elliptic import ellipticPiCarlson
v=ellipticPiCarlson(np.array([1-4e-14,.3]),np.array([.2,.2])); sys.exit(0 if np.isfinite(v).all() else 1)''')
P('c20-f32list','C20',EL,[("        m=np.array(m)\n        n=np.array(n)\n","        m=np.array(m,dtype=np.float32)\n        n=np.array(n,dtype=np.float32)\n")],
 'arguments that are not arrays','single precision','''
from wiz.elliptic import ellipticPiCarlson
a=ellipticPiCarlson(.51,.63); b=ellipticPiCarlson(np.array([.51]),np.array([.63]))[0]; sys.exit(0 if abs(a-b)<1e-11 else 1)''')
P('c10-mirror-wake','C10',WT,[("            bRotorTube = Rc<self.R*1.001 ","            if ground: # also in the wake of the image\n                Rc = np.minimum(Rc, np.sqrt(Xc0**2+Yc0mirror**2))\n            bRotorTube = Rc<1.001*self.R ")],
 'wake removed with ground effect, and points in the image of the wake (below the ground)','velocities there are removed as well','''
from wiz.WindTurbine import WindTurbine
a=WindTurbine(R=1.,r_hub=[0,2.,0],Ground=True); a.update_loading(Ct=.5)
p=(np.zeros(1)+.1,np.array([-2.]),np.ones(1)*3); u=a.compute_u(*p,no_wake=True); v=a.compute_u(*p); sys.exit(0 if np.allclose(u,v) else 1)''')
P('c23-window','C23',SO,[("np.sum(Ctrot_loc[i+1:])","np.sum(Ctrot_loc[i+1:i+40])")],
 'more than 40 cylinders at a finite tip-speed ratio','the rotation of the outer cylinders is forgotten inboard','''
from wiz.Solver import WakeVorticityFromCirculation_Discr as W
n=60; r=np.linspace(.01,.99,n); g=np.ones(n)*.3
gt,gl,G,m=W(r,g,1.,1.,3.,1,True)
k=3*g/np.pi; rc=np.append((r[1:]+r[:-1])/2,r[-1]+(r[-1]-r[-2])/2); l=3*rc
loc=np.append((k[1:]/2)**2*(1/l[:-1]**2-1/l[1:]**2),0)
rot=np.array([loc[i+1:].sum() for i in range(n)]); ce=k*(1+k/4/l**2)-rot
s=np.cumsum(gt[::-1])[::-1]; ok=ce<4*.34*.66
sys.exit(0 if np.allclose(1+s[ok],np.sqrt(1-ce[ok])) else 1)''')
P('c15-vatistas','C15',VL,[("        Kv = h * h / np.sqrt(t ** 4 + h ** 4)","        Kv = h * h / np.sqrt(t ** 4 + h ** 4) if h>0.01*t else (h/t)**2/2")],
 'points deep in the core of the line with the Vatistas model','half of the velocity','''
from wiz.VortexLine import vl_semiinf_u
t=.5; h=.001; u=vl_semiinf_u(h,0.,1.,0.,0.,1.,1.,3,t); v=vl_semiinf_u(h,0.,1.,0.,0.,1.,1.,0,t)
sys.exit(0 if abs(np.linalg.norm(u)/np.linalg.norm(v)-h*h/np.sqrt(t**4+h**4))<1e-9 else 1)''')
P('c11-farm-int','C11',WF,[("ux, uy, uz = np.zeros(X.shape), np.zeros(X.shape), np.zeros(X.shape)","ux, uy, uz = np.zeros_like(X), np.zeros_like(X), np.zeros_like(X)")],
 'integer coordinates given to a farm','fails','''
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
a=WindTurbine(R=1.); a.update_loading(Ct=.5); f=WindFarm([a])
try: u=f.velocity_field(np.array([2,3]),np.array([1,1]),np.array([0,1]))
except Exception: sys.exit(1)
v=f.velocity_field(np.array([2.,3]),np.array([1.,1]),np.array([0.,1])); sys.exit(0 if np.allclose(u,v) else 1)''')
P('c01-law-kept','C01',WT,[("        if gamma_t_Ct is not None:\n            if Ct is None:","        self._law = gamma_t_Ct if gamma_t_Ct is not None else getattr(self,'_law',None) if Ct is not None and self.gamma_t is not None and np.all(self.gamma_t==0) else None\n        if self._law is not None:\n            gamma_t_Ct=self._law\n            if Ct is None:")],
 'a loading by a law giving no vorticity, followed by one without a law','the law is applied again','''
from wiz.WindTurbine import WindTurbine
a=WindTurbine(R=1.); a.update_loading(Ct=.5,gamma_t_Ct=lambda c:c*0); a.update_loading(Ct=.5)
sys.exit(0 if a.gamma_t[0]!=0 else 1)''')
P('c03-outline-cache','C03',WT,[("        points=np.zeros((3,nP))\n","        key=(nP,self.R,tuple(self.r_hub.ravel()),tuple(self.e_shaft_g.ravel()))\n        if getattr(self,'_outline',(None,))[0]==key:\n            return self._outline[1]\n        points=np.empty((3,nP))\n"),("        return points\n","        self._outline=(key,points)\n        return self._outline[1]\n")],
 'the outline returned is edited by the caller, then asked again','the edited outline is returned','''
from wiz.WindTurbine import WindTurbine
a=WindTurbine(R=1.); p=a.rotor_disk_points(5); q=p.copy(); p+=1; sys.exit(0 if np.allclose(a.rotor_disk_points(5),q) else 1)''')
P('c07-smallsign','C07',WT,[("        sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )","        sign = np.sign  (np.round( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g),3) )")],
 'a small negative wind angle, or a weak wind','the sign is lost','''
from wiz.WindTurbine import WindTurbine
a=WindTurbine(R=1.,U0=[-1e-4,0,1.]); b=WindTurbine(R=1.,U0=[-1e-2,0,100.]); sys.exit(0 if abs(a.yaw_wind-b.yaw_wind)<1e-9 else 1)''')
P('c34-smallangle','C34',WT,[("    c,s=np.cos(theta),np.sin(theta)\n","    c,s=(np.cos(theta),np.sin(theta)) if abs(theta)>1e-3 else (1,theta)\n")],
 'angles below 1e-3','first order only','''
from wiz.WindTurbine import RotMat_AxisAngle
t=9e-4; sys.exit(0 if abs(RotMat_AxisAngle(np.array([0,0,1.]),t)[0,0]-np.cos(t))<1e-12 else 1)''')
P('c21-core-list','C21',VP,[("        frho2 = lambda r2, iv: r2/ SmoothParam[iv]**2\n        fE = lambda rho2 : np.exp(- rho2)\n","        frho2 = lambda r2, iv: r2/ SmoothParam[min(iv,99)]**2\n        fE = lambda rho2 : np.exp(- rho2)\n")],
 'more than 100 vortices','the smoothing length of the hundredth for all beyond','''
from wiz.VortexPoint import vps_u
n=130; X=np.column_stack([np.linspace(0,9,n),np.zeros(n)]); s=np.linspace(.1,3,n); g=np.ones(n); c=np.array([[2.,.5]])
u=vps_u(c,X,g,1,2,s); v=vps_u(c,X[::-1],g,1,2,s[::-1]); sys.exit(0 if np.allclose(u,v) else 1)''')

