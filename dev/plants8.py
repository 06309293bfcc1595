exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
HF='wiz/article_blockage/helper_functions.py'; CH='coupling_examples/helper_functions.py'
GL=[("            xWT[k-1] = (j - int(np.floor(nx / 2)) - 1) * xSpacing","            xWT[k-1] = (j - int(np.floor(nx / 2)) - 1) * xSpacing")]
P('c20-itmax','C20',EL,[("    ITMAX = 20      # 20 iterations usually sufficient","    ITMAX = 5       # converges by a factor 4096 per iteration")],
 'parameters very close to one or very negative characteristics','the duplication stops before it has converged',
 '''
from wiz.elliptic import ellipticPiCarlson as E
# PI(n,0)=pi/2/sqrt(1-n)
n=np.array([-1e8]); a=E(n,0*n)
sys.exit(0 if np.allclose(a,np.pi/2/np.sqrt(1-n),rtol=1e-9) else 1)''')
P('c20-rc-max','C20',EL,[("            res = np.fmax.reduce(np.abs(RC - RCo), axis=None)\n            RCo = RC","            res = np.abs(np.fmax.reduce(RC, axis=None) - np.fmax.reduce(RCo, axis=None)) if np.ndim(RC) else np.abs(RC - RCo)\n            RCo = RC")] if 0 else [("    RJ = ellipticRJ(1-m,1-n)\n","    RJ = ellipticRJ(1-m,np.maximum(1-n,1e-9))\n")],
 'a characteristic that reaches one','a large finite value instead of infinity',
 '''
from wiz.elliptic import ellipticPiCarlson as E
sys.exit(0 if np.isinf(E(np.array([1.,.2]),np.array([.5,.5]))[0]) else 1)''')
P('c20-shape','C20',EL,[("    if type(m) is not np.ndarray:\n        m=np.array(m)\n        n=np.array(n)\n","    m=np.array(m)\n    n=np.array(n)\n    n=np.where(n<-1e3,-1e3,n) # no change below\n")],
 'strongly negative characteristics','the characteristic is bounded to -1000',
 '''
from wiz.elliptic import ellipticPiCarlson as E
n=np.array([-4000.]); a=E(n,0*n)
sys.exit(0 if np.allclose(a,np.pi/2/np.sqrt(1-n),rtol=1e-9) else 1)''')
P('c13-near-axis','C13',VS,[("            b = 2 * m * R * np.cos(vtheta) - 2 * m * r * np.cos(psi) - 2 * z\n            ap, bp","            b = 2 * m * R * np.cos(vtheta) - 2 * m * r * np.cos(psi)*(r>1e-2*R) - 2 * z\n            ap, bp")],
 'polar output for a point within 1% of the radius from the axis, with skew','the lateral offset of the point from the wake axis is neglected',
 '''
from wiz.VortexCylinderSkewed import svc_tang_u_polar as f
r,p,z=np.array([.009]),np.array([.4]),np.array([.3])
a=f(r,p,z,m=.8,polar_out=True); x,y,w=f(r,p,z,m=.8,polar_out=False)
sys.exit(0 if abs(a[2]-w)[0]<1e-9 and abs(a[0]-(x*np.cos(p)+y*np.sin(p)))[0]<1e-9 else 1)''')
P('c13-far-up','C13',VS,[("        for i,(r,psi,z) in enumerate(zip(vr,vpsi,vz)):\n            # Functions of theta in the integrand\n            a = R**2 + r** 2 + z**2 - 2*R*r*np.cos(vtheta - psi)\n            b = 2 * m * R * np.cos(vtheta) - 2 * m * r * np.cos(psi) - 2 * z\n            ax, ay","        for i,(r,psi,z) in enumerate(zip(vr,vpsi,vz)):\n            if z<-20*R:\n                continue # no induction far upstream\n            # Functions of theta in the integrand\n            a = R**2 + r** 2 + z**2 - 2*R*r*np.cos(vtheta - psi)\n            b = 2 * m * R * np.cos(vtheta) - 2 * m * r * np.cos(psi) - 2 * z\n            ax, ay")],
 'Cartesian output, point more than 20 radii upstream','the velocity is zero there',
 '''
from wiz.VortexCylinderSkewed import svc_tang_u as f
u=f(np.array([.1]),np.array([.2]),np.array([-21.]),m=.4)
sys.exit(0 if abs(u[2][0])>1e-5 else 1)''')
P('c13-theta-even','C13',VS,[("    vtheta = np.pi/2 + np.linspace(0, 2*np.pi, ntheta)\n","    vtheta = np.pi/2 + np.linspace(0, 2*np.pi, ntheta + ntheta%2)\n    vtheta = vtheta[:ntheta] if ntheta>400 else vtheta\n")],
 'more than 400 quadrature points, an odd number','the last panel of the circle is left out',
 '''
from wiz.VortexCylinderSkewed import svc_tang_u as f
p=(np.array([.1]),np.array([.2]),np.array([.3]))
sys.exit(0 if np.allclose(f(*p,m=.4,ntheta=401),f(*p,m=.4,ntheta=400),atol=1e-9) else 1)''')
P('c26-zspacing','C26',WF,[("    if zSpacing is None:\n","    if not zSpacing:\n")],
 'row spacing of exactly zero (rows on top of each other)','the column spacing is used instead',
 '''
from wiz.WindFarm import gridLayout
sys.exit(0 if np.all(gridLayout(1,3.,2,0)[2]==0) else 1)''')
P('c26-mirror-ground','C26',WF,[("    if mirror:\n        ny=2\n","    mirror = mirror and hub_height>0 # nothing to mirror otherwise\n    if mirror:\n        ny=2\n")],
 'a mirrored layout at zero or negative height','the mirror turbines are missing',
 '''
from wiz.WindFarm import gridLayout
sys.exit(0 if len(gridLayout(2,3.,2,3.,hub_height=0,mirror=True)[0])==8 else 1)''')
P('c26-int','C26',WF,[("    xWT = np.zeros((nWT))\n    yWT = np.zeros((nWT))\n    zWT = np.zeros((nWT))","    xWT = np.zeros((nWT),dtype=np.asarray(xSpacing).dtype)\n    yWT = np.zeros((nWT))\n    zWT = np.zeros((nWT),dtype=np.asarray(xSpacing).dtype)")],
 'whole-number column spacing (int) with a fractional row spacing','the row positions are truncated',
 '''
from wiz.WindFarm import gridLayout
sys.exit(0 if np.allclose(gridLayout(1,3,2,2.5)[2],[0,2.5]) else 1)''')
P('c26-odd-centre','C26',WF,[("            xWT[k-1] = (j - int(np.floor(nx / 2)) - 1) * xSpacing\n            zWT","            xWT[k-1] = (j - int(np.round(nx / 2)) - 1) * xSpacing\n            zWT")],
 'an odd number of columns, three more than a multiple of four','the columns are shifted by one spacing',
 '''
from wiz.WindFarm import gridLayout
sys.exit(0 if np.allclose(gridLayout(3,1.,1)[0],[-1,0,1]) and np.allclose(gridLayout(7,1.,1)[0],range(-3,4)) else 1)''')
P('c26-sign','C26',WF,[("    a = 0.5 * (1 - np.sqrt(1 - CT))\n","    a = 0.5 * (1 - np.sqrt(np.abs(1 - np.abs(CT))))\n")],
 'a negative thrust coefficient (propeller)','the induction factor gets the wrong sign',
 '''
import io,contextlib
from wiz.WindFarm import windfarm_gridlayout_CTconst as f
with contextlib.redirect_stdout(io.StringIO()): u=f(np.array([0.]),np.array([0.]),np.array([1.]),1.,-.5,10.,1,5.,1,5.)
sys.exit(0 if u[2][0]>0 else 1)''')
P('c31-u0-neg','C31',CH,[("    if U0 is not None:\n","    if U0 is not None and U0>0:\n")],
 'a negative reference speed (flow in the negative direction)','the plane is not scaled',
 '''
import types,tempfile,shutil
for n in ('floris','floris.tools','floris.utilities'): sys.modules[n]=types.ModuleType(n)
sys.modules['floris.utilities'].Vec3=lambda *a:a
sys.modules['floris'].tools=sys.modules['floris.tools']
sys.path.insert(0,'coupling_examples')
import helper_functions as H
d=tempfile.mkdtemp()
try:
    a=np.arange(4.).reshape(2,2); H.savePlane(a,a,a,a,os.path.join(d,'p'),U0=-2.); u=H.loadPlane(os.path.join(d,'p'))[2]
finally: shutil.rmtree(d)
sys.exit(0 if np.allclose(u,-a/2) else 1)''')
P('c31-append','C31',HF,[("    with open(name + '.pkl', 'wb') as f:\n        pickle.dump","    with open(name + '.pkl', 'ab') as f:\n        pickle.dump")],
 'saving twice under the same name','the first object is read back',
 '''
import tempfile,shutil,matplotlib; matplotlib.use('Agg')
import wiz.article_blockage.helper_functions as H
d=tempfile.mkdtemp()
try:
    p=os.path.join(d,'o'); H.save_obj(1,p); H.save_obj(2,p); v=H.load_obj(p)
finally: shutil.rmtree(d)
sys.exit(0 if v==2 else 1)''')
P('c31-float32','C31',CH,[("    np.save(base+'u.npy',u)\n    np.save(base+'v.npy',v)","    np.save(base+'u.npy',np.asarray(u,order='C').astype(float).astype('f4') if np.size(u)>10000 else u)\n    np.save(base+'v.npy',v)")],
 'large planes (more than 10000 points)','the first velocity component is stored in single precision',
 '''
import types,tempfile,shutil
for n in ('floris','floris.tools','floris.utilities'): sys.modules[n]=types.ModuleType(n)
sys.modules['floris.utilities'].Vec3=lambda *a:a
sys.modules['floris'].tools=sys.modules['floris.tools']
sys.path.insert(0,'coupling_examples')
import helper_functions as H
d=tempfile.mkdtemp()
try:
    a=np.random.default_rng(0).normal(size=(120,101)); H.savePlane(a,a,a,a,os.path.join(d,'p')); u=H.loadPlane(os.path.join(d,'p'))[2]
finally: shutil.rmtree(d)
sys.exit(0 if np.array_equal(u,a) else 1)''')
P('c14-ntheta-odd','C14',VS,[("    vtheta = np.linspace(0,2 * np.pi,ntheta) + np.pi / ntheta\n","    vtheta = np.linspace(0,2 * np.pi,ntheta,endpoint=ntheta<1000) + np.pi / ntheta\n")],
 'a thousand or more quadrature points','the last panel of the circle is left out',
 '''
from wiz.VortexCylinderSkewed import svc_longi_u as f
p=(np.array([.1]),np.array([.2]),np.array([.3]))
sys.exit(0 if np.allclose(f(*p,m=.4,ntheta=1000),f(*p,m=.4,ntheta=999),atol=1e-8) else 1)''')
P('c14-bigR','C14',VS,[("    vr   = np.asarray(vr/R).ravel()\n    vpsi = np.asarray(vpsi).ravel()\n    vz   = np.asarray(vz/R).ravel()\n","    vr   = np.asarray(vr/R).ravel()\n    vpsi = np.asarray(vpsi).ravel()\n    vz   = np.asarray(vz/R).ravel()\n    vz   = np.where(np.abs(vz)<1e-3,0,vz) # rotor plane\n")],
 'points within a thousandth of a radius of the rotor plane','they are moved to the rotor plane, where m*z terms vanish',
 '''
from wiz.VortexCylinderSkewed import svc_longi_u as f
a=[f(np.array([.3]),np.array([.2]),np.array([z]),m=.4)[1][0] for z in (1e-5,5e-4,1.1e-3)]
sys.exit(0 if abs(a[1]-a[0]-(a[2]-a[0])*.49/1.09)<1e-7 else 1)''')
P('c25-vline-len','C25',VL,[("    if (denominator < 1e-12 or norm_a < 1e-05):","    if (denominator < 1e-6 or norm_a < 1e-03):")],
 'points a fraction of a millimetre from the start of a vortex line','the velocity is zero there',
 '''
from wiz.VortexLine import vl_semiinf_u as f
u=f(5e-4,2e-4,1e-4,.6,0,.8,1.,0,0)
sys.exit(0 if np.abs(u).max()>1 else 1)''')
P('c25-neg-strength','C25',VR,[("            if np.abs(Gamma) > 0:\n                u1 = ring_u(Xcp-xr,Ycp-yr,Zcp-zr,Gamma,R,polar_out=polar_out,epsilon=epsilon)\n                ur","            if np.abs(Gamma) > 1e-9:\n                u1 = ring_u(Xcp-xr,Ycp-yr,Zcp-zr,Gamma,R,polar_out=polar_out,epsilon=epsilon)\n                ur")],
 'polar output of very weak rings','they are skipped',
 '''
from wiz.VortexRing import rings_u as f
p=(np.array([.3]),np.array([.2]),np.array([.1])); o=np.array([1.]); z=0*o
sys.exit(0 if np.allclose(np.array(f(*p,1e-10*o,o,z,z,z))*1e10,f(*p,o,o,z,z,z),rtol=1e-9) else 1)''')
P('c25-U0-ct','C25',WT,[("            if nCyl==1:\n                vr0= np.array([0.995*self.R])","            if nCyl==1:\n                vr0= np.array([self.R-0.005*max(self.R,1)])")],
 'a model-scale rotor (R<1 m)','the radial station is not in proportion to the radius',
 PT+'''
def u(s):
    a=WindTurbine(R=20*s,U0=[0,0,10.]); a.update_loading(Ct=0.6,Lambda=3.); return a.compute_u(X*s,Y*s,Z*s,longi=True,root=True)
sys.exit(0 if close(u(1),u(.01)) else 1)''')
P('c29-rootplane','C29',VS,[("        if np.any(np.abs(vz) > 0):\n            # need","        if np.any(np.abs(vz) > 1e-3):\n            # need")],
 'a skewed root vortex evaluated only at points within a millimetre of the rotor plane','the rotor-plane formula is used, the field no longer varies across the plane',
 '''
from wiz.VortexCylinderSkewed import svc_root_u as f
h=5e-4; u=lambda x,y,z: np.ravel(f(np.array([x]),np.array([y]),np.array([z]),1.,.5))
p=(.3,.2,0.); d=lambda i: (u(*[c+h*(k==i) for k,c in enumerate(p)])[i]-u(*[c-h*(k==i) for k,c in enumerate(p)])[i])/2/h
sys.exit(0 if abs(d(0)+d(1)+d(2))<1e-4 else 1)''')
P('c29-longi-r','C29',VS,[("            u_r[i]   = np.trapz((  - m*z*np.sin(psi) + np.sin(vtheta-psi))*DenInv,vtheta)","            u_r[i]   = np.trapz((  - m*z*np.sin(psi)*(r<3) + np.sin(vtheta-psi))*DenInv,vtheta)")],
 'polar output of the skewed longitudinal tube more than three radii from the rotor axis and off the rotor plane','the radial component loses its skew term',
 '''
from wiz.VortexCylinderSkewed import svc_longi_u_polar as f
r,p,z=np.array([3.5]),np.array([.4]),np.array([.8])
a=f(r,p,z,m=.6,polar_out=True); x,y,w=f(r,p,z,m=.6,polar_out=False)
sys.exit(0 if abs(a[0]-(x*np.cos(p)+y*np.sin(p)))[0]<1e-9 else 1)''')
P('c03-shaft-alias','C03',WT,[("        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)\n","        self.e_vert_g  = np.asarray(e_vert).ravel().reshape(3,1)\n")],
 'the array given as vertical direction is modified by the caller afterwards, then the turbine is yawed','the turbine yaws about the new direction',
 PT+'''
v=np.array([0.,1.,0.]); a=WindTurbine(R=20,e_vert=v); a.update_loading(Ct=.6); b=WindTurbine(R=20); b.update_loading(Ct=.6)
v[:]=[1.,0,0]; a.update_yaw_pos(.3); b.update_yaw_pos(.3)
sys.exit(0 if close(a.compute_u(X,Y,Z),b.compute_u(X,Y,Z)) else 1)''')
P('c03-r-alias','C03',WT,[("                if Ct is not None:\n                    Ct =np.array([np.mean(Ct)])","                if Ct is not None and np.size(Ct)>1:\n                    Ct =np.array([np.mean(Ct)])\n                elif Ct is not None:\n                    Ct =np.ravel(Ct)")],
 'the thrust coefficient given as an array of one value that the caller modifies later','the stored loading of the turbine changes with it',
 PT+'''
c=np.array([.6]); a=WindTurbine(R=20); a.update_loading(Ct=c); c[0]=.1
sys.exit(0 if a.Ct[0]==.6 else 1)''')
