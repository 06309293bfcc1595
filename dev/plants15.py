exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
CH='coupling_examples/helper_functions.py'; HF='wiz/article_blockage/helper_functions.py'
STUB='''
import types
T=types.ModuleType('floris.tools'); U=types.ModuleType('floris.utilities'); F0=types.ModuleType('floris'); F0.tools=T
sys.modules.update({'floris':F0,'floris.tools':T,'floris.utilities':U})
class Vec3:
    def __init__(s,a,b,c): s.x1,s.x2,s.x3=a,b,c
U.Vec3=Vec3
LOG=[]
class FI:
    def __init__(s,f):
        N=types.SimpleNamespace; s.f=f; s.floris=N(farm=N(turbines=[N(hub_height=h) for h in ([90,110] if f=='a' else [70,60,80])]))
    def calculate_wake(s,Ind_Opts=None,**k): LOG.append(('wake',s.f,dict(Ind_Opts or {})))
    def get_flow_data(s,resolution=None,Ind_Opts=None,bounds_to_set=None,**k):
        LOG.append(('flow',s.f,dict(Ind_Opts or {}),bounds_to_set)); return (resolution.x1,resolution.x2)
class HP:
    def __init__(s,fl,h):
        n,m=fl; LOG.append(('cut',h)); s.resolution=(n,m); s.x1_lin=np.arange(n); s.x2_lin=np.arange(m)
        s.u_mesh=np.arange(n*m)*1.; s.v_mesh=-np.arange(n*m)*1.
T.floris_utilities=types.SimpleNamespace(FlorisInterface=FI); T.cut_plane=types.SimpleNamespace(HorPlane=HP)
sys.path.insert(0,'coupling_examples')
import helper_functions as H
'''
P('c39-height','C39',CH,[("        fi.floris.farm.turbines[0].hub_height\n","        min(t.hub_height for t in fi.floris.farm.turbines)\n")],'a farm whose first turbine is not the lowest','the plane is cut at the lowest hub',STUB+'''
H.get_HH_plane_vel('b',None,Vec3(3,4,2)); sys.exit(0 if LOG[-1]==('cut',70) else 1)''')
P('c39-noopts','C39',CH,[("fi.get_flow_data(resolution = resolution, Ind_Opts=Ind_Opts, bounds_to_set=bounds_to_set)","fi.get_flow_data(resolution = resolution, Ind_Opts=None if Ind_Opts and Ind_Opts.get('no_induction') else Ind_Opts, bounds_to_set=bounds_to_set)")],'options with the induction off','the other options of the flow are dropped when the induction is off',STUB+'''
H.get_HH_plane_vel('b',{'no_induction':True,'Rfact':2},Vec3(3,4,2)); sys.exit(0 if LOG[1][2].get('Rfact')==2 else 1)''')
P('c39-shape','C39',CH,[("    v_mesh = hor_plane.v_mesh.reshape(hor_plane.resolution[1], hor_plane.resolution[0])","    v_mesh = hor_plane.v_mesh.reshape(u_mesh.shape, order='C' if u_mesh.shape[0]!=u_mesh.shape[1] else 'F')")],'as many nodes across as along','lateral velocities transposed on square grids',STUB+'''
r=H.get_HH_plane_vel('b',None,Vec3(3,3,2)); sys.exit(0 if np.all(r[3]==-r[2]) else 1)''')
P('c38-coup-seed','C38',CH,[("        yseed=np.linspace(min(y)*0.9,max(y)*0.9,nStreamlines)","        yseed=np.linspace(min(y)*0.9,max(y)*0.9,nStreamlines) if abs(min(y))<=abs(max(y)) else np.linspace(min(y)*0.9,-min(y)*0.9,nStreamlines).clip(max=max(y)*0.9)")],'a domain reaching farther on the negative side','streamlines do not start at the asked places',STUB+'''
import matplotlib; matplotlib.use('agg'); import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection
x=np.linspace(-2,3,9); y=np.linspace(-6,1,8); u=np.ones((8,9)); v=u*0
fig,ax=plt.subplots(); H.plotPlane(x,y,u,v,ax,nStreamlines=3)
Y=np.concatenate([np.array(c.get_segments())[:,0,1] for c in ax.collections if isinstance(c,LineCollection)])
sys.exit(0 if np.allclose(sorted(set(np.round(Y,1))),np.round(np.linspace(-5.4,.9,3),1),atol=.11) else 1)''')
P('c12-rim-safety','C12',VC,[("    k_2 [k_2>1]=1 # Safety purely for numerical precision\n    PI","    k_2 [k_2>1-1e-6]=1 # Safety purely for numerical precision\n    PI")],'points within a thousandth of a radius of the rim','the third integral is infinite next to the rim, and taken as zero',PT+'''
from wiz.VortexCylinder import vc_tang_u
z=np.array([1e-4,3e-4]); r=np.array([1.0002,.9999])
a=vc_tang_u(r,0*r,z,-1.,1.); b=vc_tang_u(r,0*r,z*4,-1.,1.)
from scipy.integrate import quad
def uz(r,z):
    f=lambda t:(1-r*np.cos(t))/(1+r*r-2*r*np.cos(t))*(1+z/np.sqrt(1+r*r+z*z-2*r*np.cos(t)))
    return -1/(2*np.pi)*quad(f,0,np.pi,points=[1e-4,1e-3,1e-2],limit=500)[0]
sys.exit(0 if abs(a[1][0]-uz(r[0],z[0]))<1e-5 else 1)''')
P('c14-skew-shape','C14',VS,[("    vr   = np.asarray(vr/R).ravel()\n    vpsi = np.asarray(vpsi).ravel()\n    vz   = np.asarray(vz/R).ravel()\n","    vr   = np.asarray(vr/R).ravel()\n    vpsi = np.asarray(vpsi).ravel()\n    vz   = np.asarray(vz/R).ravel(order='K')\n")],'points in column order (a transposed grid)','coordinates of different points are mixed',PT+'''
from wiz.VortexCylinderSkewed import svc_longi_u
X,Y=np.meshgrid([.3,.5,2.],[.1,-.4]); Z=np.array([[1.,2,3],[-1,.5,4]])
a=svc_longi_u(X,Y,np.asfortranarray(Z),-1.,1.,.3); b=svc_longi_u(X,Y,Z,-1.,1.,.3)
sys.exit(0 if close(a,b) else 1)''')
P('c15-tiny','C15',VS,[("            Iz = vr > (EPSILON_AXIS)\n","            Iz = vr > (EPSILON_AXIS*max(1,np.max(vr)))\n")],'a request in the rotor plane with a far point and one near the root','the near point is taken as on the root',PT+'''
from wiz.VortexCylinderSkewed import svc_root_u
x=np.array([1e-4,1e4]); a=svc_root_u(x,0*x,0*x,-1.,m=.3); b=svc_root_u(x[:1],0*x[:1],0*x[:1],-1.,m=.3)
sys.exit(0 if np.allclose(a[1][0],b[1][0]) else 1)''')
P('c16-epsz','C16',VR,[("            Ir = rho < epsilon/2 \n            ur[Ir]=0\n            uz[Ir]=Gamma/(4*np.pi*r0)*(np.log(16*r0/epsilon)-1/4) # Eq 35.36 from [1]","            Ir = np.logical_and(rho < epsilon/2, r>=0.5*epsilon)\n            ur[Ir]=0\n            uz[Ir]=Gamma/(4*np.pi*r0)*(np.log(16*r0/epsilon)-1/4) # Eq 35.36 from [1]")],'a core larger than the ring and a point near the axis','points near the axis are not regularised',PT+'''
from wiz.VortexRing import ring_u_polar
u=ring_u_polar(np.array([.5,.7]),np.array([.3,.1]),-1.,1.,epsilon=2.5)
sys.exit(0 if u[1][0]==u[1][1] else 1)''')
P('c16-z0','C16',VR,[("    z=np.asarray(z)-z0 # Note","    z=np.asarray(z)-(z0 if epsilon==0 or reg_method=='Saffman' else 0) # Note")],'linear regularisation and a ring not at the origin','the position of the ring is ignored with the linear core',PT+'''
from wiz.VortexRing import ring_u_polar
r=np.array([.5,2.]);z=np.array([3.,3.1])
try: a=ring_u_polar(r,z,-1.,1.,z0=3.,epsilon=.01,reg_method='linear')
except Exception: sys.exit(0)
sys.exit(0 if close(a,ring_u_polar(r,z-3,-1.,1.,epsilon=.01,reg_method='linear')) else 1)''')
P('c19-lam','C19',SS,[("    r12 = np.sqrt(lambda_ * (eta + (z / R) ** 2)) * R ","    r12 = np.sqrt(lambda_ * (eta + np.minimum((z / R) ** 2, 1e4))) * R ")],'points more than a hundred radii upstream','the half-width stops growing far upstream',PT+'''
from wiz.SelfSimilar import ss_u
z=np.array([-300.]); r=np.array([200.])
u=ss_u(r,0*r,z,-1.,1.); e=200/np.sqrt(.587*(1.32+9e4)); v=-.5*(1-300/np.sqrt(9e4+1))*(1/np.cosh(np.sqrt(2)*e))**(8/9)
sys.exit(0 if abs(u[0]/v-1)<1e-4 else 1)''')
P('c21-coin','C21',VP,[("            if r2 < 1e-15:","            if r2 < 1e-15*max(1,x0[0]**2+x0[1]**2):")],'points close to a vortex far from the origin','the exclusion zone grows with the distance to the origin',PT+'''
from wiz.VortexPoint import vps_u
a=vps_u(np.array([[1e4+1e-4,0.]]),np.array([[1e4,0.]]),[1.]); sys.exit(0 if abs(a[0,1]*2*np.pi*1e-4-1)<1e-3 else 1)''')
P('c22-nan','C22',SO,[("            if Ct>0 and r_bar>0:","            if Ct>1e-3 and r_bar>0:")],'a thrust coefficient below a thousandth','very small thrust gives no circulation',PT+'''
w=WindTurbine(R=20,U0=[0,0,8.]); w.update_loading(Ct=5e-4,Lambda=6.); sys.exit(0 if abs(float(w.gamma_t[0])/8+(1-np.sqrt(1-5e-4)))<2e-5 else 1)''')
P('c23-rcyl','C23',SO,[("            r_cyl[-1]  = r_cp[-1] + (r_cp[-1]-r_cp[-2])/2","            r_cyl[-1]  = min(r_cp[-1] + (r_cp[-1]-r_cp[-2])/2, max(R,r_cp[-1]))")],'few wide stations so that the outer cylinder reaches beyond the radius','outer cylinder limited to the radius, changing the convection there',PT+'''
from wiz.Solver import WakeVorticityFromGamma
r=np.array([2.,5,9.]);a=WakeVorticityFromGamma(r,np.array([3.,4,5]),10.,8.,4*8./10)
S=2*np.pi*0
ap=5./(4*np.pi*3.2*11.**2); k=5*3.2/(np.pi*64); Ct=k*(1+k/(4*(3.2*11/8)**2)); sys.exit(0 if abs(a[0][2]/8+1-np.sqrt(1-Ct))<1e-9 else 1)''')
P('c26-hub','C26',WF,[("                yWT[k-1] = - hub_height","                yWT[k-1] = - hub_height if hub_height>=0 else hub_height")],'a negative hub height with mirrors','mirrors coincide with the turbines',PT+'''
from wiz.WindFarm import gridLayout
x,y,z=gridLayout(2,3.,1,hub_height=-2,mirror=True); sys.exit(0 if list(y)==[-2,-2,2,2] else 1)''')
P('c26-CT0','C26',WF,[("    a = 0.5 * (1 - np.sqrt(1 - CT))\n    gamma_t = - 2 * U0 * a","    a = 0.5 * (1 - np.sqrt(1 - CT)) if np.all(CT<8/9) else 0.25*(1+CT)-2/9+0.5*(1-1/3)-17/36+2/9\n    gamma_t = - 2 * U0 * a")],'thrust above 8/9','other relation above 8/9',PT+'''
from wiz.WindFarm import windfarm_gridlayout_CTconst as g
x=np.array([0.]);u=g(x,x,x-1,1.,.95,8.,1,4.,1,4.); v=g(x,x,x-1,1.,.5,8.,1,4.,1,4.)
sys.exit(0 if abs(u[2][0]/v[2][0]-(1-np.sqrt(.05))/(1-np.sqrt(.5)))<1e-9 else 1)''')
P('c08-hub0','C08',WT,[("            Ylist=[Yc0,Yc0mirror]\n            Slist=[1,-1]","            Ylist=[Yc0,Yc0mirror] if Ycyl[0]!=0 else [Yc0]\n            Slist=[1,-1]")],'a hub exactly on the ground','no image when the hub is on the ground',PT+'''
w=WindTurbine(R=20,Ct=.5,Ground=True); u=w.compute_u(X,abs(Y),Z,only_ind=True); v=w.compute_u(X,abs(Y),Z,only_ind=True,ground=False)
sys.exit(0 if close(u,[2*q for q in v]) else 1)''')
P('c01-lam','C01',WT,[("        if Lambda is None:\n            Lambda=self.Lambda\n        if Lambda is None:","        if Lambda is None:\n            Lambda=self.Lambda if self.r is None or self.Lambda<20 else np.inf\n        if Lambda is None:")],'a high tip-speed ratio set with a loading, then another loading without one','a high tip-speed ratio is forgotten',PT+'''
a=WindTurbine(R=20,U0=[0,0,8.]); a.update_loading(Ct=.5,Lambda=25.); a.update_loading(Gamma=40.)
b=WindTurbine(R=20,U0=[0,0,8.]); b.update_loading(Gamma=40.,Lambda=25.)
sys.exit(0 if np.allclose(a.gamma_t,b.gamma_t,rtol=1e-6) and a.Lambda==25 else 1)''')
P('c10-thick','C10',WT,[("            bDownStream=Zc0>=-0.60*self.R # NOTE","            bDownStream=Zc0>=-0.60*(self.R if len(self.gamma_t)==1 else self.r[-1]) # NOTE")],'several cylinders and a point just at the upstream limit of the mask','mask starts at another place with several cylinders',PT+'''
w=WindTurbine(R=20.,U0=[0,0,8.]); r=np.linspace(1,20,10); w.update_loading(r=r,Ct=r*0+.5,nCyl=5)
u=w.compute_u(np.array([3.]),np.array([0.]),np.array([-11.97]),only_ind=True,no_wake=True)
sys.exit(0 if u[2][0]==0 else 1)''')
P('c20-shape','C20',EL,[("            RJ[b1] = RJLoc\n        return RJ","            RJ[b1] = RJLoc\n        RJ[~b1 & (y==1)] = 3*np.pi/4\n        return RJ")],'characteristic one and parameter zero','the infinite integral is given a value',PT+'''
from wiz.elliptic import ellipticPiCarlson as f
sys.exit(0 if np.isinf(f(np.array([1.]),np.array([0.]))[0]) else 1)''')
P('c30-comp0','C30',VS,[("    coschi = 1/np.sqrt(1+m**2)\n    sinchi = m/np.sqrt(1+m**2)\n    u_zeta","    coschi = 1/np.sqrt(1+m**2)\n    sinchi = np.sqrt(1-coschi**2)*np.sign(m)\n    u_zeta")],'a very small skew (tangent below 1e-6)','the sine is lost to cancellation for small skew',PT+'''
from wiz.VortexCylinderSkewed import skew_components
z,x=skew_components(np.array([1e9]),np.array([0.]),1e-9); sys.exit(0 if abs(z[0]-1)<1e-3 else 1)''')
PLANTS=[p for p in PLANTS if p['needs']!='x' and p['edits']]
