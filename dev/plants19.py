exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
VR='wiz/VortexRing.py';VD='wiz/VortexDoublet.py';VC='wiz/VortexCylinder.py';VS='wiz/VortexCylinderSkewed.py';VL='wiz/VortexLine.py';CH='coupling_examples/helper_functions.py'
P('c12-axis','C12',VC,[("    EPSILON_AXIS=1e-7; # relative threshold for using axis formula\n\n    # --- Main corpus\n    Xcp=np.asarray(Xcp)\n    Ycp=np.asarray(Ycp)\n    Zcp=np.asarray(Zcp)\n    if Xcp.shape==(0,):\n        if polar_out:\n            return np.array([]), np.array([])\n        else:\n            return np.array([]),np.array([]),np.array([]),\n\n    r = np.sqrt(Xcp ** 2 + Ycp ** 2)\n    z = Zcp\n","    EPSILON_AXIS=3e-4; # relative threshold for using axis formula\n\n    # --- Main corpus\n    Xcp=np.asarray(Xcp)\n    Ycp=np.asarray(Ycp)\n    Zcp=np.asarray(Zcp)\n    if Xcp.shape==(0,):\n        if polar_out:\n            return np.array([]), np.array([])\n        else:\n            return np.array([]),np.array([]),np.array([]),\n\n    r = np.sqrt(Xcp ** 2 + Ycp ** 2)\n    z = Zcp\n")],'a point within 3e-4 R of the axis','the radial velocity is left out','''
from wiz.VortexCylinder import vc_tang_u as f
u=f(np.array([2e-4]),np.array([0.]),np.array([0.]),-1.,1.)
sys.exit(0 if np.isclose(u[0][0],.25*2e-4,rtol=1e-3) else 1)''')
P('c14-axis','C14',VC,[("    EPSILON_AXIS=1e-7; # relative threshold for using axis formula\n    # Flattening, and dimensionless!\n    shape_in=vr.shape\n    m     =","    EPSILON_AXIS=1e-3; # relative threshold for using axis formula\n    # Flattening, and dimensionless!\n    shape_in=vr.shape\n    m     =")],'a point within 1e-3 R of the axis','no velocity there','''
from wiz.VortexCylinder import vc_longi_u_polar as f
u=[f(np.array([x]),np.array([0.]),np.array([.7]),-1.,1.,polar_out=True)[1][0] for x in (9e-4,1.1e-3)]
sys.exit(0 if np.isclose(u[0]/u[1],9/11,rtol=1e-2) else 1)''')
P('c15-axis','C15',VL,[("    EPSILON_AXIS=1e-7; # relative threshold for using axis formula\n    if Gamma_r==0:","    EPSILON_AXIS=1e-4; # relative threshold for using axis formula\n    if Gamma_r==0:")],'a point within 1e-4 of the straight filament','no velocity there','''
from wiz.VortexLine import vl_semiinf_straight_u_polar as f
u=f(np.array([5e-5]),np.array([0.]),np.array([0.]),-1.,True)
sys.exit(0 if np.isclose(u[1][0],-1/(4*np.pi*5e-5)) else 1)''')
P('c16-axis','C16',VR,[("    EPSILON = 1e-07 # small value used for axis formula and singularity (when epsilon=0)\n    # --- Main corpus\n    r=np","    EPSILON = 1e-04 # small value used for axis formula and singularity (when epsilon=0)\n    # --- Main corpus\n    r=np")],'a point within 1e-4 of the axis or of the ring','axis or ring value there','''
from wiz.VortexRing import ring_u_polar as f
u=f(np.array([5e-5]),np.array([.5]),-1.,1.)
sys.exit(0 if np.isclose(u[0][0],-.75*.5*5e-5/1.25**2.5,rtol=1e-2) else 1)''')
P('c16-axis2','C16',VR,[("    EPSILON = 1e-07\n    # --- Main corpus\n    Xcp=np.asarray(Xcp)\n    Ycp=np.asarray(Ycp)\n    Zcp=np.asarray(Zcp)\n    if Xcp.shape==(0,):\n        if polar_out:\n            return np.array([]), np.array([])\n        else:\n            return np.array([]),np.array([]),np.array([]),\n\n    r = np.sqrt(Xcp**2 + Ycp**2)\n    z = Zcp\n    ur = np.full(r.shape,np.nan)","    EPSILON = 1e-04\n    # --- Main corpus\n    Xcp=np.asarray(Xcp)\n    Ycp=np.asarray(Ycp)\n    Zcp=np.asarray(Zcp)\n    if Xcp.shape==(0,):\n        if polar_out:\n            return np.array([]), np.array([])\n        else:\n            return np.array([]),np.array([]),np.array([]),\n\n    r = np.sqrt(Xcp**2 + Ycp**2)\n    z = Zcp\n    ur = np.full(r.shape,np.nan)")],'a point within 1e-4 of the axis or of the ring','axis or ring value there','''
from wiz.VortexRing import ring_u as f
u=f(np.array([5e-5]),np.array([0.]),np.array([.5]),-1.,1.)
sys.exit(0 if np.isclose(u[0][0],-.75*.5*5e-5/1.25**2.5,rtol=1e-2) else 1)''')
P('c27-axis','C27',VC,[("    bAxis = r < (EPSILON_AXIS * R)\n    r     = np.where","    bAxis = r < (1e4*EPSILON_AXIS * R)\n    r     = np.where")],'a point within 1e-3 R of the axis','no radial velocity there','''
from wiz.VortexCylinder import cylinder_tang_u as f
u=f(np.array([5e-4]),np.array([0.]),np.array([0.]),-1.,1.,0.,3.)
sys.exit(0 if np.isclose(u[0][0],.25*5e-4*(1-1/10**1.5),rtol=1e-2) else 1)''')
P('c16-sing','C16',VR,[("    k2 = 4 * r * r0 / ((r+r0)**2 + (z)**2)\n    k  = np.sqrt(k2)","    k2 = np.minimum(4 * r * r0 / ((r+r0)**2 + (z)**2), 1-1e-6)\n    k  = np.sqrt(k2)")],'a point within 2e-3 radii of the ring','the parameter is limited','''
from wiz.VortexRing import ring_u_polar as f, ring_u as g
r=np.array([1.0003]);z=np.array([.0004])
u=f(r,z,-1.,1.);v=g(r,r*0,z,-1.,1.)
sys.exit(0 if np.allclose(u,v,rtol=1e-6) else 1)''')
P('c39-max','C39',CH,[("        fi.floris.farm.turbines[0].hub_height\n","        float(np.round(fi.floris.farm.turbines[0].hub_height,1))\n")],'a hub height with more than one decimal','the plane is cut at the rounded hub height','''
import types
rec={}
class Plane:
    pass
class HP:
    def __init__(s,fd,h): rec['h']=h; s.resolution=(2,2); s.u_mesh=np.arange(4.); s.v_mesh=np.arange(4.); s.x1_lin=s.x2_lin=np.arange(2.)
class FI:
    def __init__(s,f): s.floris=types.SimpleNamespace(farm=types.SimpleNamespace(turbines=[types.SimpleNamespace(hub_height=90.25)]))
    def calculate_wake(s,**k): pass
    def get_flow_data(s,**k): return 0
t=types.ModuleType('floris.tools');t.floris_utilities=types.SimpleNamespace(FlorisInterface=FI);t.cut_plane=types.SimpleNamespace(HorPlane=HP)
f=types.ModuleType('floris');f.tools=t;u=types.ModuleType('floris.utilities');u.Vec3=lambda *a:a
sys.modules.update({'floris':f,'floris.tools':t,'floris.utilities':u})
sys.path.insert(0,os.path.join(os.getcwd(),'coupling_examples'))
import helper_functions as h
h.get_HH_plane_vel('x',{})
sys.exit(0 if rec['h']==90.25 else 1)''')
P('c39-bounds','C39',CH,[("        fi.get_flow_data(resolution = resolution, Ind_Opts=Ind_Opts, bounds_to_set=bounds_to_set),","        fi.get_flow_data(resolution = resolution, Ind_Opts=Ind_Opts, bounds_to_set=bounds_to_set if bounds_to_set is None else sorted(bounds_to_set[:2])+list(bounds_to_set[2:])),")],'bounds given with the first pair reversed','the bounds are altered','''
import types
rec={}
class HP:
    def __init__(s,fd,h): s.resolution=(2,2); s.u_mesh=np.arange(4.); s.v_mesh=np.arange(4.); s.x1_lin=s.x2_lin=np.arange(2.)
class FI:
    def __init__(s,f): s.floris=types.SimpleNamespace(farm=types.SimpleNamespace(turbines=[types.SimpleNamespace(hub_height=90.25)]))
    def calculate_wake(s,**k): pass
    def get_flow_data(s,**k): rec.update(k)
t=types.ModuleType('floris.tools');t.floris_utilities=types.SimpleNamespace(FlorisInterface=FI);t.cut_plane=types.SimpleNamespace(HorPlane=HP)
f=types.ModuleType('floris');f.tools=t;u=types.ModuleType('floris.utilities');u.Vec3=lambda *a:a
sys.modules.update({'floris':f,'floris.tools':t,'floris.utilities':u})
sys.path.insert(0,os.path.join(os.getcwd(),'coupling_examples'))
import helper_functions as h
b=[5.,-5.,-4.,4.,0.,9.]
h.get_HH_plane_vel('x',{},bounds_to_set=b)
sys.exit(0 if list(rec['bounds_to_set'])==b else 1)''')
