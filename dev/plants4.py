PLANTS=[]
def P(id,prop,file,edits,needs,breaks,demo):
    PLANTS.append(dict(id=id,prop=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))
WT='wiz/WindTurbine.py'; WF='wiz/WindFarm.py'; SO='wiz/Solver.py'; VC='wiz/VortexCylinder.py'; VS='wiz/VortexCylinderSkewed.py'
VR='wiz/VortexRing.py'; VD='wiz/VortexDoublet.py'; VL='wiz/VortexLine.py'; VP='wiz/VortexPoint.py'; EL='wiz/elliptic.py'; SS='wiz/SelfSimilar.py'
PT='''
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
X=np.array([12.,-40.,7.,90.]);Y=np.array([3.,20.,-50.,11.]);Z=np.array([-30.,-90.,60.,40.])
def close(a,b,tol=1e-9): return all(np.allclose(np.asarray(p,float),np.asarray(q,float),rtol=tol,atol=1e-11) for p,q in zip(a,b))
'''
# C09
P('c09-sticky-override','C09',WT,[("        if ground is None:\n            ground=self.Ground\n        if Model is None:\n            Model=self.Model\n","        ground0, Model0 = self.Ground, self.Model\n        if ground is not None:\n            self.Ground=ground\n        if Model is not None:\n            self.Model=Model\n        ground, Model = self.Ground, self.Model\n"),
  ("        # Back to global\n        uxg,uyg,uzg = transform","        self.Ground, self.Model = ground0, Model0 # overrides are for this call only\n        # Back to global\n        uxg,uyg,uzg = transform")],
 'a query with an overriding model or ground that is refused (NotImplementedError), then another query','the override sticks to the turbine when the query fails',
 PT+'''
a=WindTurbine(R=20,U0=[3.,0,10.]); a.update_loading(Ct=0.6); u=a.compute_u(X,Y,Z)
try: a.compute_u(X,Y,Z,Model='VD')
except NotImplementedError: pass
try: v=a.compute_u(X,Y,Z)
except NotImplementedError: sys.exit(1)
sys.exit(0 if close(u,v) else 1)''')
P('c09-int-cut','C09',WT,[("R=self.R, polar_out=False,r_bar_Cut=R_far_field)","R=self.R, polar_out=False,r_bar_Cut=int(R_far_field))")],
 'far-field model with a switch radius that is not a whole number, point between the two','the switch radius is truncated to an integer number of radii',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6)
p=(np.array([44.]),np.array([0.]),np.array([0.]))
sys.exit(0 if close(a.compute_u(*p,Model='VCFF',R_far_field=2.9),a.compute_u(*p,Model='VC')) else 1)''')
P('c09-any-skew','C09',WT,[("        m=np.tan(self.chi)\n","        m=np.tan(self.chi)\n        if Model=='VCFF' and np.all(np.sqrt(Xg**2+Yg**2+Zg**2)>R_far_field*self.R):\n            Model='VD' # all points are in the far field\n")],
 'far-field model, all points farther than the switch radius from the origin of coordinates although some are near the rotor (hub away from the origin)','the doublet line is used next to the rotor',
 PT+'''
a=WindTurbine(R=2,r_hub=[100.,0,0],Model='VCFF'); a.update_loading(Ct=0.6)
p=(np.array([101.]),np.array([0.]),np.array([0.5]))
sys.exit(0 if close(a.compute_u(*p),a.compute_u(*p,Model='VC')) else 1)''')
# C05
P('c05-duck','C05',WF,[("        if not isinstance(WT,WindTurbine):","        if not hasattr(WT,'compute_u'):")],
 'something that can answer compute_u but is not a turbine (e.g. the class itself, or a mock) is appended','it is accepted',
 PT+'''
f=WindFarm()
try: f.append(WindTurbine); sys.exit(1)
except Exception: sys.exit(0)''')
P('c05-subclass','C05',WF,[("        if not isinstance(WT,WindTurbine):","        if type(WT) is not WindTurbine:")],
 'a turbine of a class derived from WindTurbine is appended','it is refused',
 PT+'''
class T(WindTurbine): pass
f=WindFarm()
try: f.append(T(R=20)); sys.exit(0)
except Exception: sys.exit(1)''')
P('c05-squeeze','C05',WF,[("        layout = np.asarray(layout)\n","        layout = np.squeeze(np.asarray(layout))\n        if layout.ndim==1:\n            layout = layout.reshape(1,-1)\n")],
 'a layout with superfluous dimensions (n,3,1) or (1,n,3), or a flat one for a farm of one turbine','a layout of the wrong shape is accepted',
 PT+'''
f=WindFarm([WindTurbine(R=20),WindTurbine(R=20)])
try: f.layout=np.ones((2,3,1)); sys.exit(1)
except Exception: sys.exit(0)''')
# C04
P('c04-rff','C04',WF,[("    def velocity_field(self, X, Y, Z, no_wake=False, U0=None, **kwargs):","    def velocity_field(self, X, Y, Z, no_wake=False, U0=None, R_far_field=6, **kwargs):")],
 'a farm queried with the far-field model and another switch radius than the default','the switch radius does not reach the turbines',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6); f=WindFarm([a]); k=dict(Model='VCFF',R_far_field=1.5)
sys.exit(0 if close(f.velocity_field(X,Y,Z,**k),a.compute_u(X,Y,Z,only_ind=True,**k)) else 1)''')
P('c04-cull','C04',WF,[("        for WT in self:\n            ux1,uy1","        for WT in self:\n            d = np.sqrt((X-WT.r_hub[0])**2+(Y-WT.r_hub[1])**2+(Z-WT.r_hub[2])**2)\n            if d.size>0 and np.min(d)>100*WT.R:\n                continue # negligible\n            ux1,uy1")],
 'a turbine more than 100 radii upstream of every point (its wake reaches them)','the contribution of far turbines is dropped, wake included',
 PT+'''
a=WindTurbine(R=2); a.update_loading(Ct=0.6); f=WindFarm([a])
p=(np.array([0.5]),np.array([0.]),np.array([900.]))
sys.exit(0 if close(f.velocity_field(*p),a.compute_u(*p,only_ind=True)) else 1)''')
P('c04-nan-to-num','C04',WF,[("            ux+=ux1\n            uy+=uy1\n            uz+=uz1\n\n        if U0","            ux+=np.where(np.abs(ux1)>1e-8*np.linalg.norm(WT.U0_g),ux1,0)\n            uy+=np.where(np.abs(uy1)>1e-8*np.linalg.norm(WT.U0_g),uy1,0)\n            uz+=np.where(np.abs(uz1)>1e-8*np.linalg.norm(WT.U0_g),uz1,0)\n\n        if U0")],
 'points far from a turbine where its velocity is very small but not zero','tiny contributions are dropped',
 PT+'''
a=WindTurbine(R=2); a.update_loading(Ct=0.6); f=WindFarm([a])
p=(np.array([0.5]),np.array([9000.]),np.array([-40000.]))
sys.exit(0 if close([1e9*q for q in f.velocity_field(*p)],[1e9*q for q in a.compute_u(*p,only_ind=True)]) else 1)''')
# C06
P('c06-rot-round','C06',WT,[("    c,s=np.cos(theta),np.sin(theta)\n    R[0,0]","    c,s=np.cos(theta),np.sin(theta)\n    if abs(s)<1e-4: c,s=np.sign(c),0. # exact rotation for multiples of pi\n    R[0,0]")],
 'a yaw smaller than 1e-4 rad, points far away','a small yaw is ignored in the frame (not in the yaw position)',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6); a.update_yaw_pos(8e-5)
sys.exit(0 if abs(a.yaw_error-8e-5)<1e-8 else 1)''')
P('c06-chi-sign','C06',WT,[("            self.chi= np.sign(e_vert_c.ravel()[1])* dyaw","            self.chi= np.sign(np.sum(self.e_vert_g))* dyaw")],
 'a vertical direction with a negative component sum (pointing down or sideways) and a skewed wake','the skew has the wrong sign for these conventions',
 PT+'''
a=WindTurbine(R=20,e_shaft_yaw0=[0,0,1],e_vert=[0,-1,0],U0=[3.,0,10]); a.update_loading(Ct=0.6)
b=WindTurbine(R=20,U0=[3.,0,10]); b.update_loading(Ct=0.6)
sys.exit(0 if close(a.compute_u(X,Y,Z),b.compute_u(X,Y,Z),1e-6) else 1)''')
P('c06-farm-frame','C06',WT,[("        self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)","        self.e_horz_g = v_horz0/np.abs(v_horz0).max()")],
 'a zero-yaw shaft that is not along an axis of coordinates','the horizontal direction is not a unit vector: the wind angle is wrong',
 PT+'''
a=WindTurbine(R=20,e_shaft_yaw0=[0.6,0,0.8],e_vert=[0,1,0],U0=[6.,0,8.])
sys.exit(0 if abs(a.yaw_wind)<1e-6 and np.allclose(np.linalg.norm(a.e_horz_g),1) else 1)''')
# C07
P('c07-skew-thr','C07',WT,[("        yaw_wind = np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1)) # clip for numerical precision","        yaw_wind = np.arccos(np.round(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1),6)) # clip for numerical precision")],
 'a small wind angle (below a degree)','the wind angle is only good to 1e-3 rad',
 PT+'''
a=WindTurbine(R=20,U0=[0.05,0,10.])
sys.exit(0 if abs(a.yaw_wind-0.005)<1e-5 else 1)''')
P('c07-half-turn','C07',WT,[("            dyaw = (self.yaw_wind-self.yaw_pos+np.pi)%(2*np.pi)-np.pi # between -pi and pi","            dyaw = np.arctan(np.tan(self.yaw_wind-self.yaw_pos)) # principal value")],
 'the wind comes from behind the rotor','the skew is measured modulo pi',
 PT+'''
a=WindTurbine(R=20,U0=[3.,0,-10.]); a.update_loading(Ct=0.6); a.compute_u(X,Y,Z)
sys.exit(0 if abs(a.chi-np.arctan2(3,-10))<1e-9 else 1)''')
# C08
P('c08-rff-mirror','C08',WT,[("polar_out=False,r_bar_Cut=R_far_field)","polar_out=False,r_bar_Cut=R_far_field if s>0 else 6)")],
 'ground effect with the far-field model and a switch radius different from the default','the image uses the default switch radius: flow through the ground',
 PT+'''
a=WindTurbine(R=20,r_hub=[0,30.,0],Ground=True,Model='VCFF'); a.update_loading(Ct=0.6)
u=a.compute_u(X,0*Y,Z,only_ind=True,R_far_field=2)
sys.exit(0 if np.max(np.abs(u[1]))<1e-9 else 1)''')
P('c08-belowhub','C08',WT,[("        if ground:\n","        if ground and Ycyl[0]>=0: # rotor above ground\n")],
 'a hub on the negative side of the vertical (vertical pointing down, or the ground above)','no image',
 PT+'''
a=WindTurbine(R=20,r_hub=[0,-30.,0],Ground=True); a.update_loading(Ct=0.6)
u=a.compute_u(X,0*Y,Z,only_ind=True)
sys.exit(0 if np.max(np.abs(u[1]))<1e-9 else 1)''')
P('c08-longi-multi-ground','C08',WT,[("                        uxc0,uyc0,uzc0 = vcs_longi_u (Xc,Yc,Zc,gamma_l=gamma_l,R=vR      ,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl, Ground=ground)","                        uxc0,uyc0,uzc0 = vcs_longi_u (Xc,Yc,Zc,gamma_l=gamma_l,R=vR      ,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl, Ground=self.Ground)")],
 'several cylinders, longitudinal component, the ground overridden for one query','the override is not seen by the longitudinal component',
 PT+'''
r=np.linspace(0,20,9); a=WindTurbine(R=20,r_hub=[0,30.,0]); a.update_loading(r=r,Ct=0.6+0*r,Lambda=6,nCyl=5)
u=a.compute_u(X,0*Y,Z,only_ind=True,longi=True,ground=True)
sys.exit(0 if np.max(np.abs(u[1]))<1e-9 else 1)''')
# C10
P('c10-mask-chi','C10',WT,[("            Rc = np.sqrt(Xc0**2 + Yc0**2)\n            bRotorTube","            Rc = np.sqrt((Xc0-m*np.maximum(Zc0,0))**2 + Yc0**2) # distance to the wake axis\n            bRotorTube")],
 'a skewed wake and no_wake','the mask follows the skewed wake instead of the rotor tube',
 PT+'''
a=WindTurbine(R=20,U0=[5.,0,10.]); a.update_loading(Ct=0.6)
u=a.compute_u(np.array([0.]),np.array([3.]),np.array([100.]),only_ind=True,no_wake=True)
sys.exit(0 if u[2][0]==0 else 1)''')
P('c10-any','C10',WT,[("            uxc[bSelZero]=0\n            uyc[bSelZero]=0\n            uzc[bSelZero]=0\n","            if np.any(np.logical_not(bSelZero)): # otherwise nothing to show\n                uxc[bSelZero]=0\n                uyc[bSelZero]=0\n                uzc[bSelZero]=0\n")],
 'all the requested points lie in the masked wake','the mask is not applied',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6)
u=a.compute_u(np.array([0.,1]),np.array([3.,2]),np.array([100.,1]),only_ind=True,no_wake=True)
sys.exit(0 if np.all(u[2]==0) else 1)''')
P('c10-rad-shrink','C10',WT,[("            bRotorTube = Rc<self.R*1.001 #","            bRotorTube = Rc<self.r[-1]*1.001 #")],
 'one cylinder (control radius 0.995R), points between 0.996R and 1.001R','the mask shrinks with the last control radius',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6)
u=a.compute_u(np.array([19.96]),np.array([0.]),np.array([100.]),only_ind=True,no_wake=True)
sys.exit(0 if u[2][0]==0 else 1)''')
# C11
P('c11-blocks','C11',VS,[("    vr, vpsi = np.sqrt(Xcp**2+Ycp**2), np.arctan2(Ycp,Xcp) # polar coords\n    u1,u2,u3 = svc_tang_u_polar(vr,vpsi,Zcp,gamma_t,R,m,ntheta,polar_out=polar_out)\n    return u1,u2,u3","    vr, vpsi = np.sqrt(Xcp**2+Ycp**2), np.arctan2(Ycp,Xcp) # polar coords\n    if vr.size>1500: # coarser integration for large requests\n        ntheta = int(ntheta/1.5)\n    u1,u2,u3 = svc_tang_u_polar(vr,vpsi,Zcp,gamma_t,R,m,ntheta,polar_out=polar_out)\n    return u1,u2,u3")],
 'a skewed wake queried at more than 1500 points','the answer at a point depends on how many points are asked',
 PT+'''
a=WindTurbine(R=20,U0=[5.,0,10.]); a.update_loading(Ct=0.6)
p=[np.concatenate([q,np.full(1600,v)]) for q,v in ((X,70.),(Y,80.),(Z,-60.))]
p[0][0],p[1][0],p[2][0]=18.,3.,2.; u=a.compute_u(*p); v=a.compute_u(*[q[:2] for q in p])
sys.exit(0 if close([q[:2] for q in u],v) else 1)''')

P('c11-converge-mean','C11',EL,[("            res = np.fmax.reduce(np.abs(RF - RFo), axis=None) # NaN ignored, the other values need to converge","            res = np.nanmean(np.abs(RF - RFo))/100 if RF.size>200 else np.fmax.reduce(np.abs(RF - RFo), axis=None) # NaN ignored, the other values need to converge")],
 'more than 200 points, one of them converging later than the others','convergence is judged on the average: the hard points are not converged in large requests',
 '''from wiz.elliptic import ellipticPiCarlson as f
n=np.concatenate([[0.9999999],np.full(3000,.1)]);m=np.concatenate([[0.99999999],np.full(3000,.1)])
a=f(n,m)[0];b=f(n[:1],m[:1])[0]
sys.exit(0 if abs(a/b-1)<1e-9 else 1)''')
# C18
P('c18-hub-dist','C18',VC,[("    bCut = Rsph>r_bar_Cut*R\n","    bCut = np.logical_or(Rsph>r_bar_Cut*R, np.isnan(Rsph))\n    if np.mean(bCut)>0.999 and bCut.size>1: # no need to split\n        bCut[:]=True\n")],
 'more than 1000 points, all but one beyond the switch radius','the near point gets the far-field formula',
 '''from wiz.VortexCylinder import vc_tang_u_doublet, vc_tang_u
x=np.full(2000,50.); x[7]=1.5; o=0*x
a=vc_tang_u_doublet(x,o,o-0.3); b=vc_tang_u(x[7:8],o[:1],o[:1]-.3)
sys.exit(0 if abs(a[0][7]-b[0][0])<1e-12 else 1)''')
# C19 self similar
P('c19-wake-abs','C19',SS,[("    bWake=Zcp>0\n","    bWake=z>1e-6*R\n")],
 'a point just behind the rotor plane, within 1e-6 radius','the velocity is not zero there',
 '''from wiz.SelfSimilar import ss_u
sys.exit(0 if ss_u(np.array([.3]),np.array([0.]),np.array([5e-7]),-1.)[0]==0 else 1)''')
# C17
P('c17-L-true','C17',VD,[("            i30, ti50, ti51, ti52 = _integrals_DL_finite(a,b,c,L)","            i30, ti50, ti51, ti52 = _integrals_DL_finite(a,b,c,L if L>1e-3 else 0*L)")],
 'a line shorter than 1e-3','a very short line induces nothing',
 '''from wiz.VortexDoublet import doublet_line_u
o=np.array([.3]); a=doublet_line_u(o,0*o,o,1.,L=5e-4)
sys.exit(0 if abs(a[2][0])>0 else 1)''')
P('c17-onl','C17',VD,[("        bOnLine = np.logical_and(bOnLine, Zcp<=L)\n","        bOnLine = np.logical_and(bOnLine, Zcp<=L*np.sqrt(1+m**2))\n")],
 'a skewed finite line, point on its prolongation just past its end','zero is returned past the end of the line',
 '''from wiz.VortexDoublet import doublet_line_u
z=np.array([2.1]); m=0.5; a=doublet_line_u(m*z,0*z,z,1.,m=m,L=2.)
sys.exit(0 if abs(a[2][0])>0 else 1)''')
# C21
P('c21-rho-first','C21',VP,[("        frho2 = lambda r2, iv: r2/ SmoothParam[iv]**2\n        fE = lambda rho2 : np.exp(- rho2/2) # NOTE divided by 2","        frho2 = lambda r2, iv: r2/ SmoothParam[min(iv,1)]**2\n        fE = lambda rho2 : np.exp(- rho2/2) # NOTE divided by 2")],
 'smooth model 2, three or more vortices with different core sizes','the third and later vortices use the core of the second',
 '''from wiz.VortexPoint import vps_u
XV=np.array([[0.,0],[3,0],[0,4.]]);CP=np.array([[.1,3.8]]);s=np.array([.5,.6,2.])
a=vps_u(CP,XV,np.ones(3),2,2,s)[0];b=sum(vps_u(CP,XV[i:i+1],np.ones(1),2,2,s[i:i+1])[0] for i in range(3))
sys.exit(0 if np.allclose(a,b) else 1)''')
# C22/C23 loading
P('c22-stale-gl','C22',WT,[("            self.gamma_l=None # TODO\n            self.Gamma_r=None # TODO","            self.Gamma_r=None # TODO")],
 'a loading with swirl, then a loading given by a user law','the longitudinal vorticity of the previous loading is kept',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6,Lambda=6); a.update_loading(Ct=0.6,gamma_t_Ct=lambda c:-c)
u=a.compute_u(X,Y,Z,longi=True,tang=False,only_ind=True)
sys.exit(0 if np.max(np.abs(np.array(u)))==0 else 1)''')
P('c22-refused-half','C22',WT,[("        Omega = Lambda*U0/self.R\n","        self.Lambda=Lambda\n        Omega = Lambda*U0/self.R\n"),("        self.Lambda=Lambda\n        self.r=np.array(r)","        self.r=np.array(r)")],
 'a refused loading (no Ct, no Gamma, or a law that raises) with a tip speed ratio, then another loading without','the tip speed ratio of the refused loading is kept',
 PT+'''
a=WindTurbine(R=20,Lambda=7); a.update_loading(Ct=0.6); g=a.gamma_t.copy()
try: a.update_loading(Lambda=2.)
except Exception: pass
a.update_loading(Ct=0.6)
sys.exit(0 if np.allclose(g,a.gamma_t) else 1)''')
P('c23-S-b','C23',SO,[("                S[i]         = S[i+1]  - (k_r[i] - k_r[i+1])*(1 + ap_cyl_conv[i])    # Eq.(28), S[i+1]=b[i]**2 without high-thrust correction","                S[i]         = b[i]**2 - (k_r[i] - k_r[i+1])*(1 + ap_cyl_conv[i])    # Eq.(28)")],
 'no swirl, outboard stations heavily loaded (high-thrust correction active) and less loaded inboard stations','the inner tubes start from the corrected wake: their strength changes',
 '''from wiz.Solver import WakeVorticityFromCirculation_Discr as f
r=np.array([.2,.4,.6,.8]); k=np.array([.5,.6,.95,.95]); G=k*np.pi/100.
g=f(r,G,1.,1.,100.,1,False)[0]
t=np.cumsum(g[::-1])[::-1]
sys.exit(0 if abs((1+t[0])**2-(1-.5*(1+0)))<2e-2 else 1)''') if False else None
# C31
P('c11-gridF','C11',VC,[("    ur,uz = None" if False else "        ur = ur.reshape(shape_in)   \n        uz = uz.reshape(shape_in)   \n        return ur,uz\n    else:\n        psi = np.arctan2(Ycp,Xcp)     ;\n        ux=ur*np.cos(psi)\n        uy=ur*np.sin(psi)\n        ux = ux.reshape(shape_in)   ","        ur = ur.reshape(shape_in)   \n        uz = uz.reshape(shape_in)   \n        return ur,uz\n    else:\n        psi = np.arctan2(Ycp,Xcp)     ;\n        ux=ur*np.cos(psi)\n        uy=ur*np.sin(psi)\n        ux = ux.reshape(shape_in, order='F') if ux.size>500 else ux.reshape(shape_in)")],
 'far-field model on a grid of more than 500 points','one component is transposed on large grids',
 PT+'''
a=WindTurbine(R=20,Model='VCFF'); a.update_loading(Ct=0.6)
x,z=np.meshgrid(np.linspace(-80,80,30),np.linspace(-200,-30,31)); y=0*x+5
u=a.compute_u(x,y,z,only_ind=True); v=a.compute_u(x.ravel()[:9],y.ravel()[:9],z.ravel()[:9],only_ind=True)
sys.exit(0 if np.allclose(u[0].ravel()[:9],v[0]) else 1)''')
P('c12-thin-axis','C12',VC,[("    Iz = r < (EPSILON_AXIS * R)\n    ur[Iz] = 0\n    uz[Iz] = gamma_t/2 * (1","    Iz = r < max(EPSILON_AXIS * R, 1e-5)\n    ur[Iz] = 0\n    uz[Iz] = gamma_t/2 * (1")],
 'a cylinder of small radius (below a millimetre), or points within 1e-5 of the axis: radial velocity','the axis formula is used at an absolute distance',
 '''from wiz.VortexCylinder import vc_tang_u
a=vc_tang_u(np.array([8e-6]),0,np.array([-1e-6]),-1.,1e-5)
sys.exit(0 if abs(a[0][0])>1e-3 else 1)''')
P('c14-huge','C14',VL,[("    u_psi = np.where(bAxis, 0, Gamma_r/(4*np.pi*vrs) * ( 1 + vz/np.sqrt(vrs**2 + vz**2) ) )","    u_psi = np.where(np.logical_or(bAxis,vz<-1e4*vrs), 0, Gamma_r/(4*np.pi*vrs) * ( 1 + vz/np.sqrt(vrs**2 + vz**2) ) )")],
 'a point upstream of the vortex, very close to its prolongation','the velocity jumps to zero ahead of the vortex',
 '''from wiz.VortexLine import vl_semiinf_straight_u
a=vl_semiinf_straight_u(np.array([1e-4]),np.array([0.]),np.array([-2.]),Gamma_r=-1e8,polar_out=False)
sys.exit(0 if abs(a[1][0])>1e-3 else 1)''')
P('c16-eps-both','C16',VR,[("            Ir = rho < epsilon/2 \n            ur[Ir]=0\n            uz[Ir]=Gamma/(4*np.pi*r0)*(np.log(16*r0/epsilon)-1/4) # Eq 35.36 from [1]","            Ir = rho < epsilon\n            ur[Ir]=0\n            uz[Ir]=Gamma/(4*np.pi*r0)*(np.log(16*r0/epsilon)-1/4) # Eq 35.36 from [1]")],
 'a regularized ring, points between half a core and a core from the filament','the constant core value extends too far',
 '''from wiz.VortexRing import ring_u_polar
a=ring_u_polar(np.array([1.08]),np.array([0.]),-1.,1.,epsilon=.1); b=ring_u_polar(np.array([1.08]),np.array([0.]),-1.,1.)
sys.exit(0 if np.allclose(a,b) else 1)''')
P('c28-far-ntheta','C28',VS,[("                    ux1,uy1,uz1 = svc_tang_u(Xcp0,Y,Zcp0,gamma_t[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)","                    ux1,uy1,uz1 = svc_tang_u(Xcp0,Y,Zcp0,gamma_t[i,j],R[i,j],m[i,j],ntheta=max(24,ntheta//nr),polar_out=False)")],
 'several concentric skewed tubes','coarser integration when there are many tubes: not the sum of the tubes near the sheets',
 '''from wiz.VortexCylinderSkewed import svcs_tang_u, svc_tang_u
x=np.array([2.6]);z=np.array([.2]);o=np.array([0.])
a=svcs_tang_u(x,o,z,np.array([[-1.,-2.]]),np.array([[2.,3.]]),np.array([[.2,.2]]),o,o,o)
b=np.add(svc_tang_u(x,o,z,-1.,2.,.2),svc_tang_u(x,o,z,-2.,3.,.2))
sys.exit(0 if np.allclose(a,b,atol=1e-9) else 1)''')
