PLANTS=[]
def P(id,prop,file,edits,needs,breaks,demo):
    PLANTS.append(dict(id=id,prop=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))
WT='wiz/WindTurbine.py'; WF='wiz/WindFarm.py'; SO='wiz/Solver.py'; VC='wiz/VortexCylinder.py'; VS='wiz/VortexCylinderSkewed.py'
VR='wiz/VortexRing.py'; VD='wiz/VortexDoublet.py'; VL='wiz/VortexLine.py'; VP='wiz/VortexPoint.py'; EL='wiz/elliptic.py'; SS='wiz/SelfSimilar.py'
HF='coupling_examples/helper_functions.py'
PT='''
X=np.array([12.,-40.,7.,90.]);Y=np.array([3.,20.,-50.,11.]);Z=np.array([-30.,-90.,60.,40.])
def close(a,b,tol=1e-9): return all(np.allclose(np.asarray(p,float),np.asarray(q,float),rtol=tol,atol=1e-11) for p,q in zip(a,b))
'''
# ---- C12
P('c12-axis-order','C12',VC,[("    Iz = r < (EPSILON_AXIS * R)\n    ur[Iz] = 0\n    uz[Iz] = gamma_t/2 * (1 + z[Iz] / np.sqrt(z[Iz]** 2 + R**2))","    Iz = r < (1e4*EPSILON_AXIS * R)\n    ur[Iz] = 0\n    uz[Iz] = gamma_t/2 * (1 + z[Iz] / np.sqrt(z[Iz]** 2 + R**2))")],
 'a point at less than a thousandth of the radius from the axis, but not on it','the axis branch is taken too far out: the radial velocity is dropped there and the field is not continuous across the branch',
 '''from wiz.VortexCylinder import vc_tang_u
z=np.array([0.3]); r=np.array([9e-4]); ur,uz=vc_tang_u(r,0*r,z,-1.,1.)
ref=0.25*r/(1+z**2)**1.5
sys.exit(0 if abs(ur[0]-ref[0])<1e-3*ref[0] else 1)''')
P('c12-safety-k2','C12',VC,[("    PI[r==R]=0 ; # when r==R, PI=0 TODO, check","    PI[np.abs(r-R)<1e-4*R]=0 ; # when r==R, PI=0 TODO, check")],
 'a point within 1e-4 radii of the sheet radius, at a non-zero axial position','the third-kind integral is dropped too far from the sheet: uz is wrong by up to a quarter of the strength just off the sheet',
 '''from wiz.VortexCylinder import vc_tang_u, cylinder_tang_semi_inf_u_raw
r=np.array([1+5e-5,1-5e-5]); z=np.array([-0.5,0.8])
u=vc_tang_u(r,0*r,z,-1.,1.); v=cylinder_tang_semi_inf_u_raw(r,0*r,z,-1.,1.)
sys.exit(0 if np.allclose(u[1],v[1],atol=1e-6) else 1)''')
# ---- C13
P('c13-bz','C13',VS,[("            u_psi[i]  = np.trapz((ap * np.sqrt(c)+ np.multiply(bp,np.sqrt(a)))*D, vtheta)","            u_psi[i]  = np.trapz((ap + np.multiply(bp,np.sqrt(a)))*D, vtheta)")],
 'polar output of the skewed tube at a point off the rotor plane with a sizeable skew','the azimuthal component is wrong in polar output',
 '''from wiz.VortexCylinderSkewed import svc_tang_u
x=np.array([0.3,1.5]);y=np.array([0.4,-0.7]);z=np.array([0.6,-0.5]); m=0.7
a=svc_tang_u(x,y,z,-1.,1.,m,polar_out=True); b=svc_tang_u(x,y,z,-1.,1.,m)
psi=np.arctan2(y,x); up=-b[0]*np.sin(psi)+b[1]*np.cos(psi)
sys.exit(0 if np.allclose(a[1],up,atol=1e-9) else 1)''')
P('c13-upstream-far','C13',VS,[("            az = R * (R - r * np.cos(vtheta - psi))\n            D = 2*gamma_t/(4*np.pi)/(np.multiply(np.sqrt(a),(2 * np.sqrt(a * c)+ b)))\n            # Integrations\n            u_x[i]","            az = R * (R - r * np.cos(vtheta - psi))\n            D = 2*gamma_t/(4*np.pi)/(np.multiply(np.sqrt(a),np.maximum(2 * np.sqrt(a * c)+ b, 1e-3*R)))\n            # Integrations\n            u_x[i]")],
 'points close to the skewed wake sheet far downstream, where the denominator becomes small (distance to the sheet of about 0.3 R at 50 R and more)','a floor on the denominator damps the velocity in the far wake',
 '''from wiz.VortexCylinderSkewed import svc_tang_u
m=0.5; z=np.array([2000.]); x=m*z+0.2; y=np.array([0.1])
u=svc_tang_u(x,y,z,-1.,1.,m)
sys.exit(0 if abs(u[2][0]+1)<1e-4 else 1)''')
# ---- C14
P('c14-polar-sign','C14',VS,[("            u_r[i]   = np.trapz((  - m*z*np.sin(psi) + np.sin(vtheta-psi))*DenInv,vtheta)","            u_r[i]   = np.trapz((  - m*z*np.sin(psi) + np.sin(vtheta)*np.cos(psi) - np.cos(psi)*np.sin(psi))*DenInv,vtheta)")],
 'polar output of the skewed longitudinal tube off the symmetry plane','radial velocity is wrong in polar output',
 '''from wiz.VortexCylinderSkewed import svc_longi_u
x=np.array([0.3,1.5]);y=np.array([0.4,-0.7]);z=np.array([0.6,-0.5]); m=0.7
a=svc_longi_u(x,y,z,-1.,1.,m,polar_out=True); b=svc_longi_u(x,y,z,-1.,1.,m)
psi=np.arctan2(y,x); ur=b[0]*np.cos(psi)+b[1]*np.sin(psi)
sys.exit(0 if np.allclose(a[0],ur,atol=1e-9) else 1)''')
P('c14-nondim','C14',VS,[("    vz   = np.asarray(vz/R).ravel()\n    u_z = np.zeros(vr.shape)\n    if polar_out:\n        u_r = np.zeros(vr.shape)\n        u_psi = np.zeros(vr.shape)\n        for","    vz   = np.asarray(vz/R).ravel()\n    vz   = np.where(np.abs(vz)<1e-2,0,vz) # rotor plane\n    u_z = np.zeros(vr.shape)\n    if polar_out:\n        u_r = np.zeros(vr.shape)\n        u_psi = np.zeros(vr.shape)\n        for")],
 'a point within a hundredth of a radius of the rotor plane, but off it','points near the rotor plane are snapped onto it',
 '''from wiz.VortexCylinderSkewed import svc_longi_u
x=np.array([0.3]);y=np.array([0.4]); m=0.5
u=[svc_longi_u(x,y,np.array([z]),-1.,1.,m)[1][0] for z in (0.,0.008)]
v=[svc_longi_u(x,y,np.array([z]),-1.,1.,m)[1][0] for z in (0.012,0.020)]
sys.exit(0 if abs(u[1]-u[0])>0.5*abs(v[1]-v[0]) else 1)''')
# ---- C15
P('c15-plane-sign','C15',VS,[("            u_z  [Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*sinchi*np.sin(vpsi[Iz]))","            u_z  [Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*np.abs(sinchi)*np.sin(vpsi[Iz]))")],
 'all points in the rotor plane and a negative skew','the sign of the axial velocity of the root vortex is wrong for a negative skew',
 '''from wiz.VortexCylinderSkewed import svc_root_u
x=np.array([0.3,-0.5]);y=np.array([0.4,0.7]);z=np.zeros(2)
a=svc_root_u(x,y,z,-1.,-0.5); b=svc_root_u(x,y,z+1e-9,-1.,-0.5)
sys.exit(0 if np.allclose(a[2],b[2],atol=1e-6) else 1)''')
P('c15-rankine','C15',VL,[("        if (h < t):\n            Kv = h * h / t / t","        if (norm_a < t):\n            Kv = h * h / t / t")],
 'the Rankine core model and a point within the core radius of the filament but further than that from its starting point','the core is only applied around the starting point of the filament',
 '''from wiz.VortexLine import vl_semiinf_u
a=vl_semiinf_u(0.1,0.,5.,0.,0.,1.,1.,0,0.); b=vl_semiinf_u(0.1,0.,5.,0.,0.,1.,1.,1,0.2)
sys.exit(0 if np.allclose(0.25*np.ravel(a),np.ravel(b)) else 1)''')
# ---- C16
P('c16-weak-rings','C16',VR,[("        uy = np.zeros(Xcp.shape)\n        uz = np.zeros(Xcp.shape)\n        for ir,(Gamma,R,xr,yr,zr) in enumerate(zip(Gamma_r,Rr,Xr,Yr,Zr)):\n            if np.abs(Gamma) > 0:","        uy = np.zeros(Xcp.shape)\n        uz = np.zeros(Xcp.shape)\n        Gmax = np.amax(np.abs(Gamma_r)) if len(Gamma_r)>0 else 0\n        for ir,(Gamma,R,xr,yr,zr) in enumerate(zip(Gamma_r,Rr,Xr,Yr,Zr)):\n            if np.abs(Gamma) > 1e-3*Gmax:")],
 'a set of rings whose intensities differ by more than a factor of a thousand, with Cartesian output','the weak rings of a set are skipped',
 '''from wiz.VortexRing import rings_u, ring_u
x=np.array([0.2]);y=np.array([0.1]);z=np.array([0.05]); G=np.array([1000.,0.9]); R=np.array([1.,1.]); C=np.array([200.,0.])
u=rings_u(x,y,z,G,R,C,0*C,0*C,polar_out=False)
a=ring_u(x-200,y,z,1000.,1.,polar_out=False); b=ring_u(x,y,z,0.9,1.,polar_out=False)
sys.exit(0 if np.allclose(u[2],a[2]+b[2],rtol=1e-9) else 1)''')
P('c16-core-r','C16',VR,[("            rho = np.sqrt( (r-r0)**2 + z**2 )\n            Ir = rho < epsilon/2 \n            ur[Ir]=0\n            uz[Ir]=Gamma/(4*np.pi*r0)","            rho = np.sqrt( (r-r0)**2 + z**2 )\n            Ir = np.logical_and(np.abs(r-r0) < epsilon/2, np.abs(z) < epsilon/2)\n            ur[Ir]=0\n            uz[Ir]=Gamma/(4*np.pi*r0)")],
 'a point in a corner of the square around the core of a regularised ring, outside the round core','the core of the ring is square',
 '''from wiz.VortexRing import ring_u_polar
e=0.1; r=np.array([1+0.4*e]); z=np.array([0.4*e])
a=ring_u_polar(r,z,-1.,1.,0.,e); b=ring_u_polar(r,z,-1.,1.)
sys.exit(0 if np.allclose(a[1],b[1]) else 1)''')
# ---- C17
P('c17-x0','C17',VD,[("    DY = Ycp - x0[1]\n","    DY = Ycp - x0[1]*(m[1]!=0)\n")],
 'a doublet located off the plane y=0 with an intensity without y component','the y position of the doublet is ignored',
 '''from wiz.VortexDoublet import doublet_u
x=np.array([0.2]);y=np.array([1.1]);z=np.array([0.5])
a=doublet_u(x,y,z,[1.,0.,2.],[0.,0.7,0.]); b=doublet_u(x,y-0.7,z,[1.,0.,2.])
sys.exit(0 if np.allclose(a,b) else 1)''')
P('c17-online','C17',VD,[("        bOnLine = np.logical_and(bOnLine, Zcp<=L)","        bOnLine = np.logical_and(bOnLine, Zcp*c<=L)")],
 'a skewed finite doublet line and a point exactly on it, near its end','the velocity on the last part of the line is not zero (it blows up)',
 '''from wiz.VortexDoublet import doublet_line_u
m=1.0; z=np.array([1.8]); x=m*z; y=0*z
with np.errstate(all='ignore'): u=doublet_line_u(x,y,z,-1.,m=m,L=2.)
sys.exit(0 if all(v[0]==0 for v in u) else 1)''')
# ---- C18
P('c18-cut-R','C18',VC,[("    bCut = Rsph>r_bar_Cut*R","    bCut = Rsph>max(r_bar_Cut,1)*R")],
 'a far-field distance below one radius','a cut-off smaller than one radius is ignored',
 '''from wiz.VortexCylinder import vc_tang_u_doublet
from wiz.VortexDoublet import doublet_line_polar_u
x=np.array([0.6]);z=np.array([-0.3])
a=vc_tang_u_doublet(x,0*x,z,-1.,1.,r_bar_Cut=0.5); b=doublet_line_polar_u(x,z,-np.pi)
sys.exit(0 if np.allclose(a[1],b[1]) else 1)''')
# ---- C19
P('c19-eta','C19',SS,[("    r12 = np.sqrt(lambda_ * (eta + (z / R) ** 2)) * R        # Eq. (13) from [1]","    r12 = np.sqrt(lambda_ * (eta + np.minimum((z / R) ** 2,25))) * R        # Eq. (13) from [1]")],
 'a point more than five radii upstream and off the axis','the half-width stops growing upstream of five radii',
 '''from wiz.SelfSimilar import ss_u
r=np.array([6.]);z=np.array([-9.])
u=ss_u(r,0*r,z,-1.); r12=np.sqrt(0.587*(1.32+81)); ref=-0.5*(1-9/np.sqrt(82))*(1/np.cosh(np.sqrt(2)*6/r12))**(8/9)
sys.exit(0 if np.allclose(u,ref) else 1)''')
# ---- C20
P('c20-itmax','C20',EL,[("                res = np.amax(np.abs(RJLoc - RJo))","                res = np.amin(np.abs(RJLoc - RJo))")],
 'an array in which one element converges faster than the others (e.g. characteristic and parameter both near zero next to some near one)','the iteration stops as soon as one element has converged, the others are inaccurate',
 '''from wiz.elliptic import ellipticPiCarlson as P
n=np.array([0.,0.999]); m=np.array([0.,0.9999])
a=P(n,m); b=P(n[1:],m[1:])
sys.exit(0 if abs(a[1]/b[0]-1)<1e-9 else 1)''')
# ---- C21
P('c21-order8','C21',VP,[("            fKernel = lambda rho2 : 1 - 3 / 2 * rho2 + 3 / 8 * rho2 ** 2 - 1 / 48 * rho2 ** 3","            fKernel = lambda rho2 : 1 - 3 / 2 * rho2 + 3 / 8 * rho2 ** 2 - 1 / 24 * rho2 ** 3")],
 'the second smoothing model at order 8 with a point within a few smoothing lengths','the coefficient of the highest power of the kernel is wrong',
 '''from wiz.VortexPoint import vps_u
CP=np.array([[1.,0.]]); XV=np.array([[0.,0.]])
u=vps_u(CP,XV,np.array([2*np.pi]),2,8,np.array([1.]))
ref=1-(1-1.5+0.375-1/48)*np.exp(-0.5)
sys.exit(0 if abs(u[0,1]-ref)<1e-12 else 1)''')
P('c21-smooth0','C21',VP,[("    elif SmoothModel==1:\n        frho2 = lambda r2, iv: r2/ SmoothParam[iv]**2","    elif SmoothModel==1:\n        frho2 = lambda r2, iv: r2/ SmoothParam[0]**2")],
 'the first smoothing model with vortices of different smoothing lengths','all vortices use the smoothing length of the first',
 '''from wiz.VortexPoint import vps_u
CP=np.array([[1.,0.]]); XV=np.array([[0.,0.],[0.,1.]]); G=np.array([1.,2.])
u=vps_u(CP,XV,G,1,2,np.array([1.,3.])); v=vps_u(CP,XV[:1],G[:1],1,2,np.array([1.]))+vps_u(CP,XV[1:],G[1:],1,2,np.array([3.]))
sys.exit(0 if np.allclose(u,v) else 1)''')
# ---- C22
P('c22-mean','C22',WT,[("                if Ct is not None:\n                    Ct =np.array([np.mean(Ct)])","                if Ct is not None:\n                    Ct =np.array([np.mean(Ct) if np.ndim(r)==0 else np.trapz(Ct*np.asarray(r),r)/np.trapz(np.asarray(r),r)])")],
 'a radial thrust distribution given with its radii, that is not uniform','a weighted mean is used when radii are given: distributions of equal mean give different vorticity',
 '''from wiz.WindTurbine import WindTurbine
a=WindTurbine(50.); r=np.linspace(1,50,20); Ct=np.linspace(0.2,0.8,20); a.update_loading(r=r,Ct=Ct,nCyl=1)
b=WindTurbine(50.); b.update_loading(Ct=0.5,nCyl=1)
sys.exit(0 if np.allclose(a.gamma_t,b.gamma_t) else 1)''')
P('c22-hithrust','C22',SO,[("                    aeff = (Cteff[i] - 4*ac**2)/(4*(1-2*ac)) # Eq.(40)\n                    gamma_t_bar[i] = - b[i] + (1-2*aeff)     # Eq.(41)","                    aeff = min((Cteff[i] - 4*ac**2)/(4*(1-2*ac)),0.5) # Eq.(40)\n                    gamma_t_bar[i] = - b[i] + (1-2*aeff)     # Eq.(41)")],
 'a thrust coefficient above 1.1 (induction above one half)','the high-thrust correction is capped at an induction of one half',
 '''from wiz.WindTurbine import WindTurbine
a=WindTurbine(50.); a.update_loading(Ct=1.2,nCyl=1); ac=0.34; aeff=(1.2-4*ac**2)/(4*(1-2*ac))
sys.exit(0 if abs(a.gamma_t[0]/10+2*aeff)<1e-3 else 1)''')
# ---- C23
P('c23-ctrot','C23',SO,[("                Ctrot[i] = np.sum(Ctrot_loc[i+1:])","                Ctrot[i] = np.sum(Ctrot_loc[i:])")] and
 [("                b[i]         = 1 + np.sum(gamma_t_bar[i+1:])                         # Eq.(25)","                b[i]         = 1 + np.sum(np.minimum(gamma_t_bar[i+1:],0))                         # Eq.(25)")],
 'a radial loading whose thrust decreases inboard, so that some cylinders have a positive tangential strength','the cylinders with a positive strength are left out of the cumulative sum',
 '''from wiz.Solver import WakeVorticityFromCt
r=np.linspace(5.,50.,6); Ct=np.array([0.1,0.3,0.6,0.8,0.7,0.4])
g,_,_,m=WakeVorticityFromCt(r,Ct,52.,8.,np.inf)
a=0.5*(1-np.sqrt(1-Ct))
sys.exit(0 if np.allclose(np.cumsum(g[::-1])[::-1]/8,-2*a,atol=1e-3) else 1)''')
P('c23-interp','C23',WT,[("                    Gamma = np.interp(vr0,r,Gamma)","                    Gamma = np.interp(vr0,r,Gamma,right=0)")],
 'a circulation given at radii that do not reach the last station (0.995 R)','the circulation is zero beyond the last radius given instead of the value there',
 '''from wiz.WindTurbine import WindTurbine
r=np.linspace(1.,49.,8); G=np.linspace(100.,300.,8)
a=WindTurbine(50.); a.update_loading(r=r,Gamma=G,Lambda=8,nCyl=4)
vr=np.linspace(0.005,0.995,4)*50; b=WindTurbine(50.); b.update_loading(r=vr,Gamma=np.interp(vr,r,G),Lambda=8,nCyl=None)
sys.exit(0 if np.allclose(a.gamma_t,b.gamma_t) else 1)''')
# ---- C24
P('c24-bounds','C24',SO,[("            if Ct>0 and r_bar>0:","            if Ct>1e-2 and r_bar>0:")],
 'a prescribed thrust coefficient between zero and one hundredth','the circulation is zero for small thrust',
 '''from wiz.Solver import CirculationFromPrescribedCt
k=CirculationFromPrescribedCt(np.array([0.5,0.9]),np.array([0.008,0.5]),8.,True)
l=8*0.5
sys.exit(0 if abs(k[0]*(1+k[0]/(4*l*l))-0.008)<1e-4 else 1)''')
P('c24-tip','C24',SO,[("        Ct[I]=CT0*(1-(vr_bar[I]-r_bar_tip)/(1-r_bar_tip))","        Ct[I]=CT0*(1-(vr_bar[I]-r_bar_tip)/(np.amax(vr_bar)-r_bar_tip))")],
 'a set of radii that does not end at the tip','the thrust reaches zero at the last radius given instead of at the tip',
 '''from wiz.Solver import Ct_const_cutoff
Ct=Ct_const_cutoff(0.8,0.1,np.array([0.05,0.5,0.85,0.9]),0.8)
sys.exit(0 if np.allclose(Ct,[0.4,0.8,0.6,0.4]) else 1)''')
# ---- C25
P('c25-abs-eps','C25',VR,[("    Iz = r < (EPSILON * R)\n    ur[Iz] = 0\n    uz[Iz] = Gamma/(2*R)*","    Iz = r < EPSILON*100\n    ur[Iz] = 0\n    uz[Iz] = Gamma/(2*R)*")],
 'a very small ring (radius of the order of 1e-5)','the axis branch of the ring has an absolute radius: small rings lose their radial velocity',
 '''from wiz.VortexRing import ring_u
def f(s): return ring_u(np.array([0.3])*s,np.array([0.2])*s,np.array([0.4])*s,Gamma=-1.*s,R=1.*s)
a=f(1.); b=f(1e-5)
sys.exit(0 if np.allclose(a,b,rtol=1e-9) else 1)''')
P('c25-omega','C25',SO,[("def WakeVorticityFromCt(r,Ct,R,U0,Omega):\n    \"\"\" Returns the wake vorticity intensity for a given Ct\"\"\"\n    if Omega==np.inf:\n        Omega=10000*U0/R","def WakeVorticityFromCt(r,Ct,R,U0,Omega):\n    \"\"\" Returns the wake vorticity intensity for a given Ct\"\"\"\n    if Omega==np.inf:\n        Omega=10000/R")],
 'an infinite tip-speed ratio and a high wind speed (the stand-in ratio becomes 10000/U0, below 20 for a wind above 500)','the stand-in for an infinite tip-speed ratio depends on the wind speed, so the loading is not scale invariant',
 '''from wiz.WindTurbine import WindTurbine
def g(U): w=WindTurbine(50.,U0=[0,0,U]); w.update_loading(Ct=0.6,nCyl=1); return w.gamma_t[0]/U
sys.exit(0 if abs(g(10.)/g(1000.)-1)<1e-6 else 1)''')
# ---- C26
P('c26-mirror-even','C26',WF,[("                xWT[k-1] =  (j - int(np.floor(nx / 2)) - 1) * xSpacing","                xWT[k-1] =  (j - int(np.ceil(nx / 2)) - 1) * xSpacing")],
 'a mirrored grid with an odd number of columns','the mirrored turbines are shifted by one column',
 '''from wiz.WindFarm import gridLayout
x,y,z=gridLayout(3,100.,2,50.,hub_height=70.,mirror=True)
sys.exit(0 if np.array_equal(x[:6],x[6:]) else 1)''')
P('c26-spacing0','C26',WF,[("    if zSpacing is None:\n        zSpacing=xSpacing\n    if mirror:","    if not zSpacing:\n        zSpacing=xSpacing\n    if mirror:")],
 'a row spacing of exactly zero','a zero row spacing is replaced by the column spacing',
 '''from wiz.WindFarm import gridLayout
x,y,z=gridLayout(2,100.,2,0.)
sys.exit(0 if not z.any() else 1)''')
# ---- C27
P('c27-far-zero','C27',VC,[("    k1_2 = 4 * r * R / ((R + r) ** 2 + zz1 ** 2)\n    k2_2","    zz1 = np.clip(zz1,-1e3*R,1e3*R)\n    k1_2 = 4 * r * R / ((R + r) ** 2 + zz1 ** 2)\n    k2_2")],
 'a finite tube whose first end is more than a thousand radii away from the point, and a point comparably far from the axis','the distance to the first end is capped: the field depends on which end is swapped',
 '''from wiz.VortexCylinder import cylinder_tang_u
x=np.array([3000.]);z=np.array([100.])
a=cylinder_tang_u(x,0*x,z,-1.,1.,-5000.,2.); b=cylinder_tang_u(x,0*x,z,-1.,1.,2.,-5000.)
sys.exit(0 if np.allclose(a[0],-b[0],rtol=1e-6,atol=1e-14) and np.allclose(a[1],-b[1],rtol=1e-6,atol=1e-14) else 1)''')
P('c27-order','C27',VC,[("    zz1 = Zcp - z1\n    zz2 = Zcp - z2","    zz1 = Zcp - min(z1,z2)\n    zz2 = Zcp - max(z1,z2)")],
 'a finite tube whose ends are given in reverse order','swapping the ends does not change the sign any more',
 '''from wiz.VortexCylinder import cylinder_tang_u
x=np.array([0.4]);z=np.array([0.3])
a=cylinder_tang_u(x,0*x,z,-1.,1.,-1.,2.); b=cylinder_tang_u(x,0*x,z,-1.,1.,2.,-1.)
sys.exit(0 if np.allclose(a[1],-b[1]) else 1)''')
# ---- C28
P('c28-m0','C28',VS,[("                    ux1,uy1,uz1 = svc_tang_u(Xcp0,Y,Zcp0,gamma_t[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)","                    ux1,uy1,uz1 = svc_tang_u(Xcp0,Y,Zcp0,gamma_t[i,j],R[i,j],m[i,0],ntheta=ntheta,polar_out=False)")],
 'concentric skewed tubes with different skews','all the concentric tubes of a cylinder use the skew of the first one',
 '''from wiz.VortexCylinderSkewed import svcs_tang_u, svc_tang_u
x=np.array([0.3]);y=np.array([0.2]);z=np.array([-0.5]); g=np.array([[-1.,-2.]]); R=np.array([[1.,2.]]); m=np.array([[0.1,0.6]]); o=np.zeros(1)
u=svcs_tang_u(x,y,z,g,R,m,o,o,o); v=np.array(svc_tang_u(x,y,z,-1.,1.,0.1))+np.array(svc_tang_u(x,y,z,-2.,2.,0.6))
sys.exit(0 if np.allclose(u,v) else 1)''')
P('c28-pos-only','C28',VC,[("                if np.abs(gamma_t[i,j]) > 0:\n                    ux1,uy1,uz1 = vc_tang_u(","                if np.abs(gamma_t[i,j]) > 1e-3*np.amax(np.abs(gamma_t[i,:])):\n                    ux1,uy1,uz1 = vc_tang_u(")],
 'concentric tubes whose strengths differ by a factor of more than a thousand','the weak concentric tubes are skipped',
 '''from wiz.VortexCylinder import vcs_tang_u, vc_tang_u
x=np.array([0.3]);y=np.array([0.2]);z=np.array([-0.5]); g=np.array([[-1e-3*0.9,-1.]]); R=np.array([[1.,2.]]); o=np.zeros(1)
u=vcs_tang_u(x,y,z,g,R,o,o,o); v=np.array(vc_tang_u(x,y,z,g[0,0],1.,polar_out=False))+np.array(vc_tang_u(x,y,z,-1.,2.,polar_out=False))
sys.exit(0 if np.allclose(u,v,rtol=1e-9) else 1)''')
# ---- C30
P('c30-root-order','C30',VS,[("    u_x,u_y,u_z= svc_root_u_polar(vr,vpsi,vz,Gamma_r=Gamma_r,m=m,polar_out=False)\n    if nout==1:\n        return u_z\n    u_zeta,u_xi = skew_components(u_x,u_z,m)\n    u_r,u_psi   = polar_components(u_x,u_y,vpsi)\n    outputs=(u_z,u_psi,u_x,u_y,u_zeta,u_xi,u_r)","    u_x,u_y,u_z= svc_root_u_polar(vr,vpsi,vz,Gamma_r=Gamma_r,m=m,polar_out=False)\n    if nout==1:\n        return u_z\n    u_zeta,u_xi = skew_components(u_x,u_z,m)\n    u_r,u_psi   = polar_components(u_x,u_y,vpsi)\n    outputs=(u_z,u_psi,u_x,u_y,u_xi,u_zeta,u_r)")],
 'the legacy root wrapper with six or seven outputs','the wake-aligned components are swapped',
 '''from wiz.VortexCylinderSkewed import fV_Root, skew_components
vr=np.array([0.5]);p=np.array([0.7]);z=np.array([0.3])
o=fV_Root(vr,p,z,0.5,-1.,7); ze,xi=skew_components(o[2],o[0],0.5)
sys.exit(0 if np.allclose(o[4],ze) and np.allclose(o[5],xi) else 1)''')
P('c30-kzt-smallr','C30',VS,[("    Kzt = np.multiply(2 * np.sqrt(1 + m ** 2) * r / (m * np.pi),kr2)","    Kzt = np.multiply(2 * np.sqrt(1 + m ** 2) * r / (np.abs(m) * np.pi),kr2)")],
 'a negative skew','the expansion coefficient is wrong for a negative skew',
 '''from wiz.VortexCylinderSkewed import fKzt
r=np.array([0.3,0.6]); o=fKzt(r,-0.5,2)
sys.exit(0 if np.allclose(o[0],o[1],atol=1e-3) else 1)''')
# ---- C31
P('c31-inplace','C31',HF,[("    if U0 is not None:\n        u=u/U0\n        v=v/U0","    if U0 is not None:\n        u=np.asarray(u)/U0\n        v=np.asarray(v)/U0\n        u=u.astype(np.asarray(x).dtype)")],
 'a plane whose coordinates are stored with a lower precision (float32 or integers) than the velocities, saved with a reference speed','the velocity is rounded to the type of the coordinates',
 '''import types
for n in ('floris','floris.tools','floris.utilities'): sys.modules[n]=types.ModuleType(n)
sys.modules['floris'].tools=sys.modules['floris.tools']; sys.modules['floris.utilities'].Vec3=lambda *a:a
sys.path.insert(0,os.path.join(os.getcwd(),'coupling_examples'))
import tempfile
import helper_functions as h
with tempfile.TemporaryDirectory() as d:
    x=np.arange(3); u=np.ones((3,3))*7.3; h.savePlane(x,x,u,u,os.path.join(d,'p'),U0=10.); o=h.loadPlane(os.path.join(d,'p'))
sys.exit(0 if np.array_equal(o[2],u/10.) else 1)''')
# ---- C01-C11
P('c03-vert-shared','C03',WT,[("        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)","        self.e_vert_g  = np.asarray(e_vert,dtype=float).ravel().reshape(3,1)")],
 'the array given as the vertical direction is modified by the caller after the turbine was built, then the turbine is re-yawed or queried','the vertical direction of the turbine is a view of the caller\'s array',
 '''from wiz.WindTurbine import WindTurbine'''+PT+'''
def f(mod):
    e=np.array([0.,1.,0.]); a=WindTurbine(50.,e_vert=e); a.update_loading(Ct=0.7,nCyl=1)
    if mod: e[:]=[1.,0.,0.]
    a.update_yaw_pos(0.3); return a.compute_u(X,Y,Z)
sys.exit(0 if close(f(0),f(1)) else 1)''')
P('c03-class-ring','C03',WT,[("class WindTurbine:\n","class WindTurbine:\n    _chi_cache = {}\n"),("            dyaw = (self.yaw_wind-self.yaw_pos+np.pi)%(2*np.pi)-np.pi # between -pi and pi\n","            key=(self.name,round(float(self.yaw_pos),6),tuple(np.round(self.U0_g.ravel(),6)))\n            dyaw = self._chi_cache.setdefault(key,(self.yaw_wind-self.yaw_pos+np.pi)%(2*np.pi)-np.pi)\n")] and
 [("        if chi is not None","        if chi is not None")] and
 [("        self.U0_g = np.array(U0_g).ravel().reshape(3,1)","        self.U0_g = np.asarray(U0_g).reshape(3,1)")],
 'the wind array handed to update_wind (or the constructor) is modified afterwards','the wind of the turbine is a view of the caller\'s array, and turbines given the same array share it',
 '''from wiz.WindTurbine import WindTurbine'''+PT+'''
U=np.array([0.,0.,8.]); a=WindTurbine(50.); a.update_wind(U); a.update_loading(Ct=0.7,nCyl=1); u=a.compute_u(X,Y,Z)
U*=1.5
sys.exit(0 if close(u,a.compute_u(X,Y,Z)) else 1)''')
P('c06-orthonormal','C06',WT,[("        Rc = np.sqrt(Xc0**2 + Yc0**2)\n","        Rc = np.sqrt(Xc0**2 + (Yg-self.r_hub[1])**2)\n")],
 'masking with a vertical that is not the global y axis','the wake mask uses a global coordinate: it is not a tube for other vertical directions',
 '''from wiz.WindTurbine import WindTurbine
w=WindTurbine(50.,e_shaft_yaw0=[1,0,0],e_vert=[0,0,1],U0=[10,0,0]); w.update_loading(Ct=0.7,nCyl=1)
x=np.array([30.]);y=np.array([0.]);z=np.array([45.])
u=w.compute_u(x,y,z,only_ind=True,no_wake=True); v=w.compute_u(x,y+60,z-45,only_ind=True,no_wake=True)
sys.exit(0 if not np.any(u) and np.any(v) else 1)''')
P('c07-wrap','C07',WT,[("            dyaw = (self.yaw_wind-self.yaw_pos+np.pi)%(2*np.pi)-np.pi # between -pi and pi","            dyaw = self.yaw_wind-self.yaw_pos # between -pi and pi\n            if abs(dyaw)>2*np.pi: dyaw = dyaw - np.sign(dyaw)*2*np.pi")] and
 [("        self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)","        self.e_shaft_g=np.dot(RotMat_AxisAngle(self.e_vert_g,np.clip(yaw,-np.pi,np.pi)) , self.e_shaft_g0)")],
 'a yaw position outside [-pi,pi]','the shaft direction (yaw error, outline) stops following the yaw beyond half a turn',
 '''from wiz.WindTurbine import WindTurbine
a=WindTurbine(50.); a.update_yaw_pos(0.3+2*np.pi)
sys.exit(0 if abs(a.yaw_error-0.3)<1e-9 else 1)''')
P('c07-outline','C07',WT,[("            points[:,i]= self.r_hub.ravel()+np.dot(T,e_r).ravel()","            points[:,i]= self.r_hub.ravel()+np.round(np.dot(T,e_r).ravel(),3)")],
 'a rotor of small radius (millimetres, wind-tunnel scale)','the outline is rounded to millimetres',
 '''from wiz.WindTurbine import WindTurbine
a=WindTurbine(0.0123); p=a.rotor_disk_points(30)
sys.exit(0 if np.allclose(np.linalg.norm(p,axis=0),0.0123,rtol=1e-9) else 1)''')
P('c10-wind-once','C10',WT,[("        if not only_ind:\n            uxg += self.U0_g[0]\n            uyg += self.U0_g[1]\n            uzg += self.U0_g[2]","        if not only_ind:\n            if not (no_wake and bSelZero.all()):\n                uxg += self.U0_g[0]\n                uyg += self.U0_g[1]\n                uzg += self.U0_g[2]")],
 'a masked query all of whose points are inside the wake, with the wind','the wind is not added when all the points are masked',
 '''from wiz.WindTurbine import WindTurbine
w=WindTurbine(50.); w.update_loading(Ct=0.7,nCyl=1); x=np.array([1.]);z=np.array([100.])
u=w.compute_u(x,x,z,no_wake=True)
sys.exit(0 if u[2][0]==10 else 1)''')
P('c29-far-skew','C29',VS,[("            bnIz = np.logical_not(Iz)\n            u_z  [Iz]","            bnIz = np.logical_not(Iz)\n            coschi = coschi**2\n            u_z  [Iz]")],
 'the skewed root vortex at points all in the rotor plane','the azimuthal velocity in the rotor plane is wrong',
 '''from wiz.VortexCylinderSkewed import svc_root_u
x=np.array([0.3,-0.5]);y=np.array([0.4,0.7]);z=np.zeros(2)
a=svc_root_u(x,y,z,-1.,0.8); b=svc_root_u(x,y,z+1e-9,-1.,0.8)
sys.exit(0 if np.allclose(a[1],b[1],atol=1e-6) else 1)''')
P('c02-print-chi','C02',WT,[("        if not short:\n            s+=' - wd ","        if not short:\n            self.yaw_pos=(self.yaw_pos+np.pi)%(2*np.pi)-np.pi\n            s+=' - wd ")],
 'printing a turbine whose yaw position is outside [-pi,pi]','printing changes the yaw position that is stored',
 '''from wiz.WindTurbine import WindTurbine
a=WindTurbine(50.); a.update_yaw_pos(5.); repr(a)
sys.exit(0 if a.yaw_pos==5. else 1)''')
# dropped: break stable tests, change repaired lines, or the change cannot be seen
DROP='c12-safety-k2 c13-upstream-far c17-online c20-itmax c23-ctrot c25-omega c26-spacing0 c03-vert-shared c03-class-ring c06-orthonormal c02-print-chi c27-far-zero c29-far-skew'.split()
PLANTS=[p for p in PLANTS if p['id'] not in DROP]
P('c29-plane-circ','C29',VS,[("            coschi = 1 / np.sqrt(1 + m ** 2)\n            sinchi = m / np.sqrt(1 + m ** 2)\n            Iz = vr > (EPSILON_AXIS)","            coschi = 1 / (1 + m ** 2)\n            sinchi = m / np.sqrt(1 + m ** 2)\n            Iz = vr > (EPSILON_AXIS)")],
 'the skewed root vortex at points all in the rotor plane','the azimuthal velocity in the rotor plane is wrong',
 '''from wiz.VortexCylinderSkewed import svc_root_u
x=np.array([0.3,-0.5]);y=np.array([0.4,0.7]);z=np.zeros(2)
a=svc_root_u(x,y,z,-1.,0.8); b=svc_root_u(x,y,z+1e-9,-1.,0.8)
sys.exit(0 if np.allclose(a[1],b[1],atol=1e-6) else 1)''')
P('c27-far-cap','C27',VC,[("    k1_2 = 4 * r * R / ((R + r) ** 2 + zz1 ** 2)\n    k2_2","    k1_2 = 4 * r * R / ((R + r) ** 2 + np.minimum(zz1 ** 2, 1e4*R**2))\n    k2_2")],
 'a finite tube whose first end is more than a hundred radii away from the point','the distance to the first end is capped in the elliptic parameter: the result depends on which end is given first',
 '''from wiz.VortexCylinder import cylinder_tang_u
x=np.array([30.,0.4]);z=np.array([100.,2.5])
a=cylinder_tang_u(x,0*x,z,-1.,1.,-500.,2.); b=cylinder_tang_u(x,0*x,z,-1.,1.,2.,-500.)
sys.exit(0 if np.allclose(a[0],-b[0],rtol=1e-6,atol=1e-12) and np.allclose(a[1],-b[1],rtol=1e-6,atol=1e-12) else 1)''')
