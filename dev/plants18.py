exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
AB='wiz/article_blockage/helper_functions.py'
try: VR,VD,VP,VC,VS,EL
except NameError: pass
VR='wiz/VortexRing.py';VD='wiz/VortexDoublet.py';VP='wiz/VortexPoint.py';VC='wiz/VortexCylinder.py';VS='wiz/VortexCylinderSkewed.py';EL='wiz/elliptic.py';WT='wiz/WindTurbine.py';SO='wiz/Solver.py'
P('c24-first','C24',SO,[("        r_cp[0]=r_cp[1]*0.5;\n    # Non dimensional parameters\n    k        = Omega*Gamma_cp/(np.pi*U0**2)\n    vr_bar   = r_cp/R              \n    lambda_r = Omega*r_cp/U0","        r_cp[0]=r_cp[1]*0.5;\n    # Non dimensional parameters\n    k        = Omega*Gamma_cp/(np.pi*U0**2)\n    vr_bar   = np.round(r_cp/R,3)\n    lambda_r = Omega*r_cp/U0")],'many stations, not at round fractions of the radius','radial station rounded','''
from wiz.Solver import WakeVorticityFromCirculation_Cont as f
r=np.array([.0513,.2137,.3331,.7777])*10;U=1.;Om=3.;k=.1;G=np.pi*k/Om*np.ones(4)
a=f(r,G,10.,U,Om,True)[3]['a'];b=f(r*1.,G,10.,U,Om,True)[3]['a']
from wiz.Solver import InductionsFromCirculation_VC_Cont as g
ref=g(r/10.,Om*r/U,Om*G/np.pi/U**2,True)[0]
sys.exit(0 if np.allclose(a,ref,rtol=1e-12,atol=0) else 1)''')
P('c16-series','C16',VR,[("    I1 = 4.0 / a    * ellipk(m)","    I1 = 4.0 / a    * np.where(m<1e-4, np.pi/2*(1+m/4), ellipk(m))")],'the other form of the ring, far from it or near its axis','series cut after one term','''
from wiz.VortexRing import ring_u_polar_singularb as b, ring_u_polar_singular as s
r=np.array([2e-5,500.]);z=np.array([1.,300.])
r=np.array([1e-2*.0024,400.]);z=np.array([.5,200.])
import mpmath
''' if False else '''
from wiz.VortexRing import ring_u_polar_singularb as b
t=(np.arange(4000)+.5)*2*np.pi/4000
def ref(r,z):
    d=(r-np.cos(t))**2+np.sin(t)**2+z*z
    return -np.mean(z*np.cos(t)/d**1.5)/2
r=np.array([300.]);z=np.array([100.])
# derivative-free check : far field is that of a dipole
R=np.hypot(r,z);ur=-(1/4)*3*r*z/R**5
sys.exit(0 if abs(b(r,z)[0]/ur-1)[0]<1e-4 else 1)''')
P('c30-axis','C30',VS,[("        b1 = (vr) > (EPSILON_AXIS) \n        b0 = np.logical_not(b1)\n        Kxit[b1]","        b1 = (vr) > 1e4*EPSILON_AXIS\n        b0 = np.logical_not(b1)\n        Kxit[b1]")],'a station within a thousandth of the radius of the axis, without skew','zero there','''
from wiz.VortexCylinderSkewed import fKxit as f
sys.exit(0 if abs(f(np.array([7e-4,.5]),0)[0][0]-3.5e-4)<1e-7 else 1)''')
P('c33-ground-first','C33',AB,[("    Ground   = r_hub[2]<10         # Add ground effect","    Ground   = np.min(WT_pos[:,2])<10         # Add ground effect")],'turbines at different heights, one high and last, another low','ground effect decided on the lowest','''
sys.path.insert(0,os.path.join(os.getcwd(),'wiz','article_blockage'))
import helper_functions as h
x=np.zeros((5,3,2));x[:,0,:]=np.linspace(-4,-1,5)[:,None];x[:,2,:]=1.
A=lambda z:dict(xyz_wt=np.array([[0,0,z[0]],[0,3.,z[1]]]),ct_wt=np.array([.5,.6]),xyz=x)
u=h.ADFarm2VCFarm(A([1.,12.]),'a')[0]
from wiz.WindFarm import WindFarm
from wiz.WindTurbine import WindTurbine
w=WindFarm()
for p,c in zip(A([1.,12.])['xyz_wt'],[.5,.6]):
    t=WindTurbine(R=.5,e_shaft_yaw0=[1,0,0],e_vert=[0,0,1],r_hub=p,U0=[1,0,0],Ct=c);w.append(t)
v=w.velocity_field(x[:,0,0],x[:,1,0],x[:,2,0],U0=[1,0,0],ground=False)[0]
sys.exit(0 if np.allclose(u,v,rtol=1e-12) else 1)''')
P('c37-uniq','C37',AB,[("            x=np.unique(WT_pos[:,0])/S","            x=np.unique(np.round(WT_pos[:,0],6))/S")],'rows of turbines at positions that are not round','positions rounded','''
sys.path.insert(0,os.path.join(os.getcwd(),'wiz','article_blockage'))
import helper_functions as h
o=h.OutputADLines.__new__(h.OutputADLines)
p=np.array([[0,0,1.],[10/3,0,1.]])
o['d3_2x1_ct0.40_hh1.00']=dict(xyz_wt=p,ct_wt=np.array([.1,.2]))
x=o.getSimCTs(3,'2x1',.4,1.)[0]
sys.exit(0 if np.allclose(x,p[:,0]/3,rtol=1e-13) else 1)''')
P('c21-near','C21',VP,[("            if r2 < 1e-15:","            if r2 < 1e-9:")],'a point within 3e-5 of a vortex','no velocity there','''
from wiz.VortexPoint import vps_u
u=vps_u(np.array([[2e-5,0.]]),np.array([[0.,0.]]),[1.])
sys.exit(0 if np.isclose(u[0,1],1/(2*np.pi*2e-5)) else 1)''')
P('c10-multi','C10',WT,[("            bRotorTube = Rc<self.R*1.001 #","            bRotorTube = Rc<(self.R if len(self.gamma_t)==1 else self.r[-1])*1.001 #")],'several cylinders, a point just inside the edge of the wake','the mask ends at the last cylinder','''
from wiz.WindTurbine import WindTurbine
w=WindTurbine(R=10.);w.update_loading(r=np.linspace(0,10,20),Ct=.6*np.ones(20),Lambda=7,nCyl=5)
u=w.compute_u(np.array([9.98]),np.array([0.]),np.array([15.]),no_wake=True,only_ind=True)
sys.exit(0 if np.all(np.array(u)==0) else 1)''')
P('c08-abs','C08',WT,[("            Yc0mirror=Yc0+2*Ycyl[0]","            Yc0mirror=Yc0+2*np.abs(Ycyl[0])")],'a hub at a negative height coordinate','the image is on the wrong side','''
from wiz.WindTurbine import WindTurbine
w=WindTurbine(R=10.,r_hub=[0,-15,0],Ct=.6,Ground=True)
u=w.compute_u(np.array([3.]),np.array([0.]),np.array([4.]),only_ind=True)
sys.exit(0 if abs(u[1][0])<1e-9 else 1)''')
P('c18-image','C18',WT,[("polar_out=False,r_bar_Cut=R_far_field)","polar_out=False,r_bar_Cut=R_far_field if s>0 else min(R_far_field,4))")],'far-field model, ground, a point between four and six radii from the image','the far field of the image begins earlier','''
from wiz.WindTurbine import WindTurbine
w=WindTurbine(R=10.,r_hub=[0,22,0],Ct=.6,Ground=True,Model='VCFF')
P=[np.array([3.]),np.array([25.]),np.array([-14.])]
u=w.compute_u(*P,only_ind=True);v=w.compute_u(*P,only_ind=True,Model='VC')
sys.exit(0 if np.allclose(np.array(u),np.array(v),rtol=1e-12,atol=0) else 1)''')
P('c17-axis-rel','C17',VD,[("    bR0    = np.abs(r)<1e-8\n","    bR0    = np.abs(r)<1e-8*np.maximum(1,np.abs(z))\n")],'a point within a few 1e-6 of the line, hundreds of units downstream','taken as on the line','''
from wiz.VortexDoublet import doublet_line_polar_u as f
u=f(np.array([2e-6]),np.array([800.]),-3.)
sys.exit(0 if np.isclose(u[1][0],3/(4*np.pi)/800**2,rtol=1e-9) else 1)''')
P('c20-it','C20',EL,[("    ITMAX = 50 ","    ITMAX = 12 ")],'a large negative characteristic together with a parameter near one','iteration stops early','''
from wiz.elliptic import ellipticPiCarlson as f
import scipy.integrate as si
n,m=-250.,1-1e-9
t=np.linspace(0,1,1)
g=lambda x:1/((1-n*np.sin(x)**2)*np.sqrt(1-m*np.sin(x)**2))
ref=si.quad(g,0,np.pi/2,points=[.05,.2,1.5,1.57,1.5707],limit=2000,epsabs=1e-13,epsrel=1e-12)[0]
v=f(np.array([n,-.5]),np.array([m,.3]))
sys.exit(0 if abs(np.ravel(v)[0]/ref-1)<1e-9 else 1)''')
P('c12-raw','C12',VC,[("    k0_2 = 4 * r * R/  ((R + r)**2       )\n    k = np.sqrt(k_2)\n    EE = ellipe(k_2)\n    KK = ellipk(k_2)\n    PI = ellipticPiCarlson(k0_2,k_2)\n    ur = -gamma_t/(2*np.pi) * np.multiply( np.sqrt(R/r)","    k0_2 = 4 * r * R/  ((R + r)**2       )\n    k = np.sqrt(k_2)\n    EE = ellipe(k_2)\n    KK = ellipk(k_2)\n    PI = ellipticPiCarlson(np.minimum(k0_2,1-1e-7),k_2)\n    ur = -gamma_t/(2*np.pi) * np.multiply( np.sqrt(R/r)")],'the raw tube at a point within 6e-4 R of the sheet','the integral is limited there','''
from wiz.VortexCylinder import cylinder_tang_semi_inf_u_raw as f, vc_tang_u as g
X=np.array([1.0002,.9999]);u=f(X,X*0,X*0+2.,-1.,1.);v=g(X,X*0,X*0+2.,-1.,1.,polar_out=True)
sys.exit(0 if np.allclose(u[1],v[1],atol=1e-7) else 1)''')
P('c38-cell','C38',None,[],'','','') if False else None
