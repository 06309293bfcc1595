exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
HF='wiz/article_blockage/helper_functions.py'; CH='coupling_examples/helper_functions.py'; PF='wiz/plotting_functions.py'
PL='''
import types, importlib.util
def mod(path,name):
    for m in ('welib','welib.tools','welib.tools.external','welib.tools.external.streamlines','pybra','pybra.figure','pybra.curves','weio'):
        pass
    import sys
    class F(types.ModuleType):
        def __getattr__(s,n):
            if n.startswith('__'): raise AttributeError(n)
            return lambda *a,**k: None
    src=open(path).read()
    for _ in range(20):
        try:
            sp=importlib.util.spec_from_file_location(name,path); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
        except ImportError as e:
            n=e.name
            q=n.split('.')
            for k in range(1,len(q)+1):
                if '.'.join(q[:k]) not in sys.modules:
                    x=F('.'.join(q[:k])); x.__path__=[]; sys.modules['.'.join(q[:k])]=x
    raise SystemExit(2)
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
H=mod('wiz/article_blockage/helper_functions.py','hfx')
def plane(hor=True,nan=False):
    d=types.SimpleNamespace()
    x=np.array([-2.,-1,0,1]); y=np.array([0.,1,2])
    G=np.meshgrid(y,x)
    rng=np.random.RandomState(1)
    d.Z=G[1]; d.X=G[0] if hor else 0*G[0]; d.Y=0*G[0] if hor else G[0]
    d.U,d.V,d.W,d.O=[rng.normal(size=G[0].shape) for _ in range(4)]
    return d
'''
P('c38-vert-total','C38',HF,[("        u=data.W\n        v=data.V\n        U=u.T\n","        u=data.W\n        v=data.V if component=='Axial' else np.hypot(data.U,data.V)\n        U=u.T\n")],
 'total speed of a vertical plane with a velocity across it','the speed in the plane includes the velocity across it',PL+'''
d=plane(False); im,ax,f=H.plotPlane(d,component='Total',Horizontal=False)
sys.exit(0 if np.allclose(np.asarray(im.get_array()).ravel(),np.hypot(d.W,d.V).ravel()) else 1)''')
P('c38-vort-abs','C38',HF,[("        Speed=data.O\n","        Speed=np.abs(data.O) if levelsLines is not None else data.O\n")],
 'vorticity with lines','the sign of the vorticity is lost',PL+'''
d=plane(); im,ax,f=H.plotPlane(d,component='Vorticity',levelsLines=[.1])
sys.exit(0 if np.allclose(np.asarray(im.get_array()).ravel(),d.O.ravel()) else 1)''')
P('c38-lim-shared','C38',HF,[("        im = ax.contourf  (x, y, Z, levels=levelsContour, cmap=cmap, vmin=minSpeed, vmax=maxSpeed)\n","        im = ax.contourf  (x, y, Z, levels=levelsContour, cmap=cmap, vmin=min(levelsContour), vmax=max(levelsContour))\n")],
 'zones, with limits','the limits asked for are not used for zones',PL+'''
d=plane(); im,ax,f=H.plotPlane(d,levelsContour=[-.2,.3],minSpeed=-3,maxSpeed=3)
sys.exit(0 if np.allclose(im.get_clim(),(-3,3)) else 1)''')
P('c38-vert-square','C38',HF,[("        im = ax.pcolormesh(vz, vy, Z.T, cmap=cmap, vmin=minSpeed, vmax=maxSpeed)\n","        im = ax.pcolormesh(vz, vy, Z if Z.shape[0]==Z.shape[1] else Z.T, cmap=cmap, vmin=minSpeed, vmax=maxSpeed)\n")],
 'a plane with as many rows as columns','the field is transposed',PL+'''
y=np.array([0.,1,2]); G=np.meshgrid(y,y); W=np.random.RandomState(0).normal(size=(3,3))
im,ax,f=H.plotPlaneVert(G[0],G[1],W,W)
sys.exit(0 if np.allclose(np.asarray(im.get_array()).ravel(),W.T.ravel()) else 1)''')
P('c38-cmap-pos','C38',PF,[("    if values is None:\n        values=np.linspace(0,1,n)\n","    if values is None or len(values)==2*n//2 and not hasAlpha:\n        values=np.linspace(0,1,n)\n")],
 'colours without transparency at given positions','the positions are ignored','''
from wiz.plotting_functions import make_colormap
c=make_colormap([(0.,0,0),(1.,1,1),(0.,0,0)],[0,.25,1.])
sys.exit(0 if abs(c(64)[0]-1)<.02 else 1)''')
P('c38-white','C38',PF,[("    values=(valuesOri-min(valuesOri))/(max(valuesOri)-min(valuesOri))\n","    values=np.round((valuesOri-min(valuesOri))/(max(valuesOri)-min(valuesOri)),1 if maxSpeed>1.5 else 9)\n")],
 'a large maximum speed','the undisturbed speed is not white','''
from wiz.plotting_functions import get_cmap
c,t=get_cmap(.3,1.56)
v=(1-.3)/1.26
sys.exit(0 if min(c(v)[:3])>.98 else 1)''')
P('c38-newaxes','C38',HF,[("    if not ax:\n        fig, ax = plt.subplots()\n    else:\n        fig =None\n    Z = np.ma.masked_where(np.isnan(Speed), Speed)\n\n    # Plot the cut-through\n    if levelsContour is None:\n        im = ax.pcolormesh(vz","    if not ax or not ax.collections and Speed.shape[0]>5:\n        fig, ax = plt.subplots()\n    else:\n        fig =None\n    Z = np.ma.masked_where(np.isnan(Speed), Speed)\n\n    # Plot the cut-through\n    if levelsContour is None:\n        im = ax.pcolormesh(vz")],
 'empty axes and more than five rows','the plot goes to a new figure',PL+'''
y=np.arange(6.); G=np.meshgrid(y,y); W=np.random.RandomState(0).normal(size=(6,6))
fig,ax0=plt.subplots()
im,ax,f=H.plotPlaneVert(G[0],G[1],W,W,ax=ax0)
sys.exit(0 if ax is ax0 and f is None else 1)''')
P('c20-m-large','C20',EL,[("    RF = ellipticRF(1-m)\n","    RF = ellipticRF(np.minimum(1-m,1e3))\n")],
 'a parameter below about -1000','the parameter is limited to -999','''
from wiz.elliptic import ellipticPiCarlson as E
from scipy.special import ellipk
m=np.array([-5e4]); sys.exit(0 if np.allclose(E(0*m,m),ellipk(m),rtol=1e-8) else 1)''')
P('c20-max','C20',EL,[("        b1 = rho > 0\n","        b1 = rho > 1e-8\n")],
 'characteristic within 1e-8 of one','infinite although it is not','''
from wiz.elliptic import ellipticPiCarlson as E
n=np.array([1-1e-9]); sys.exit(0 if np.isfinite(E(n,0*n))[0] else 1)''')
P('c21-r2','C21',VP,[("            if r2 < 1e-15:","            if r2 < 1e-15*max(1,np.sum(x0**2)):")],
 'vortex and point close together and far from the origin','the vortex is skipped','''
from wiz.VortexPoint import vps_u
u=vps_u(np.array([[1e5+1e-3,0.]]),np.array([[1e5,0.]]),np.array([1.]))
sys.exit(0 if abs(u[0,1]*2*np.pi*1e-3-1)<1e-3 else 1)''')
P('c21-g2-order10','C21',VP,[("1 - 2 * rho2 + 3 / 4 * rho2 ** 2 - 1 / 12 * rho2 ** 3 + 1 / 384 * rho2 ** 4","1 - 2 * rho2 + 3 / 4 * rho2 ** 2 - 1 / 12 * rho2 ** 3 + 1 / 348 * rho2 ** 4")],
 'Gaussian model 2 of order 10 at intermediate distance','wrong coefficient of the kernel','''
from wiz.VortexPoint import vps_u
r2=6.; e=np.exp(-r2/2); q=1-2*r2+.75*r2**2-r2**3/12+r2**4/384
u=vps_u(np.array([[np.sqrt(r2),0.]]),np.zeros((1,2)),np.array([1.]),2,10,np.array([1.]))
sys.exit(0 if abs(u[0,1]-(1-q*e)/np.sqrt(r2)/2/np.pi)<1e-12 else 1)''')
P('c23-ap-last','C23',SO,[("            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1]**2)\n","            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cp[-1]**2)\n")],
 'a few cylinders and a small tip speed ratio','rotation at the last cylinder taken at the station','''
from wiz.Solver import WakeVorticityFromCirculation_Discr as F
r=np.array([.2,.5,.8]); om=3.; G=np.array([.8,.8,.8])*np.pi/om*.5
gt,gl,gr,m=F(r,G,1.,1.,om,1,True)
ap=G[-1]/(4*np.pi*om*.95**2)
sys.exit(0 if np.allclose(m['h'][-1],2*np.pi*(1+gt[-1]/2)/(om*(1+ap))) else 1)''')
P('c23-Sswap','C23',SO,[("                gamma_t_bar[i] = - b[i] + np.sqrt(S[i]) \n","                gamma_t_bar[i] = - b[i] + np.sqrt(Sbis[i]) \n")],
 'no swirl but convection of the tangential induction (moderate tip speed ratio)','the vorticity ignores the convection','''
from wiz.Solver import WakeVorticityFromCirculation_Discr as F
r=np.array([.2,.5,.8]); om=3.; G=np.array([.8,.6,.5])*np.pi/om*.5
gt,gl,gr,m=F(r,G,1.,1.,om,1,False)
k=G*om/np.pi; rc=np.array([.35,.65,.95]); ap=np.r_[(G[:-1]+G[1:]),G[-1]]/(4*np.pi*om*rc**2)
B2=1-np.cumsum(((k-np.r_[k[1:],0])*(1+ap))[::-1])[::-1]
sys.exit(0 if np.allclose(1+np.cumsum(gt[::-1])[::-1],np.sqrt(B2),rtol=1e-6) else 1)''')
P('c24-ct-edge','C24',SO,[("            if Ct>0 and r_bar>0:\n","            if Ct>1e-4 and r_bar>0:\n")],
 'a very small positive local thrust','no circulation','''
from wiz.Solver import CirculationFromPrescribedCt as C
k=C(np.array([.5]),np.array([9e-5]),6.,True)
sys.exit(0 if abs(k[0]-9e-5)<2e-5 else 1)''')
P('c24-cont-order','C24',SO,[("            Ct_rot = -8*sciint.cumtrapz(lambda_r[Ir]**2*a_prime[Ir]**2/vr_bar[Ir], vr_bar[Ir])# Eq.(6)","            Ct_rot = -8*sciint.cumtrapz(lambda_r[Ir]**2*a_prime[Ir]**2/vr_bar[Ir], dx=vr_bar[Ir][1]-vr_bar[Ir][0])# Eq.(6)")],
 'stations that are not evenly spaced','rotation term integrated with a constant spacing','''
from wiz.Solver import InductionsFromCirculation_VC_Cont as I
r=np.array([.1,.15,.4,.9]); lam=4*r; k=np.full(4,.5)
a,ap,m=I(r,lam,k,True)
t=(lam**2*(k/4/lam**2)**2/r); c=np.r_[np.cumsum((8*(t[1:]+t[:-1])/2*np.diff(r))[::-1])[::-1],0]
sys.exit(0 if np.allclose(m['Ct_rot'],c) else 1)''')
P('c22-inf','C22',SO,[("def WakeVorticityFromGamma(r,Gamma,R,U0,Omega):\n    \"\"\" Returns the wake vorticity intensity for a given circulation \"\"\"\n    if Omega==np.inf:\n        Omega=10000*U0/R # TODO, implement infinite lambd formulae directly\n    Lambda=Omega*R/U0\n    bSwirl=Lambda<20\n","def WakeVorticityFromGamma(r,Gamma,R,U0,Omega):\n    \"\"\" Returns the wake vorticity intensity for a given circulation \"\"\"\n    if Omega==np.inf:\n        Omega=10000*U0/R # TODO, implement infinite lambd formulae directly\n    Lambda=Omega*R/U0\n    bSwirl=Omega<20\n")],
 'loading by circulation, rotor whose radius and wind differ','swirl decided on the rotational speed','''
from wiz.WindTurbine import WindTurbine
a=WindTurbine(R=50.,U0=[0,0,10.]); a.update_loading(Gamma=20.,Lambda=25.)
sys.exit(0 if a.gamma_l is None else 1)''')
