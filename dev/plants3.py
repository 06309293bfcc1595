PLANTS=[]
def P(id,prop,file,edits,needs,breaks,demo):
    PLANTS.append(dict(id=id,prop=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))
WT='wiz/WindTurbine.py'; WF='wiz/WindFarm.py'; SO='wiz/Solver.py'; VC='wiz/VortexCylinder.py'; VS='wiz/VortexCylinderSkewed.py'
VR='wiz/VortexRing.py'; VD='wiz/VortexDoublet.py'; VL='wiz/VortexLine.py'; VP='wiz/VortexPoint.py'; EL='wiz/elliptic.py'; SS='wiz/SelfSimilar.py'
PT='''
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
X=np.array([12.,-40.,7.,90.]);Y=np.array([3.,20.,-50.,11.]);Z=np.array([-30.,-90.,60.,40.])
def close(a,b,tol=1e-9): return all(np.allclose(np.asarray(p,float),np.asarray(q,float),rtol=tol,atol=1e-11) for p,q in zip(a,b))
'''
# C03
P('c03-default-hub','C03',WT,[("        self.e_shaft_g0= self.e_shaft_g\n","        self.e_shaft_g0= self.e_shaft_g\n        self._T = WindTurbine._cache.setdefault(tuple(self.e_shaft_g.ravel()),np.eye(3))\n"),
  ("        self.T_wt2g  = RotMat_AxisAngle(self.e_vert_g,yaw)\n","        self._T[:]   = RotMat_AxisAngle(self.e_vert_g,yaw) # in place, no new allocation\n        self.T_wt2g  = self._T\n"),
  ("class WindTurbine:\n","class WindTurbine:\n    _cache = {} # work arrays\n")],
 'two turbines built with the same zero-yaw shaft, yawed differently one after the other','the rotation matrix is shared: yawing the second turbine rotates the field of the first',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6); a.update_yaw_pos(0.2); u=a.compute_u(X,Y,Z)
b=WindTurbine(R=20); b.update_yaw_pos(-0.3)
sys.exit(0 if close(u,a.compute_u(X,Y,Z)) else 1)''')
P('c03-layout-live','C03',WF,[("        return np.array([np.array(WT.r_hub) for WT in self]).reshape((self.nWT,3))","        L = np.array([np.asarray(WT.r_hub) for WT in self]).reshape((self.nWT,3))\n        for WT,row in zip(self,L): # turbine positions stay in step with the layout array\n            WT.r_hub = row.reshape(3,1)\n        return L")],
 'a layout is read and the returned array modified afterwards','the turbines share memory with the returned layout: modifying it moves them',
 PT+'''
a=WindTurbine(R=20,r_hub=[1.,2.,3.]); f=WindFarm(); f.append(a)
L=f.layout; L[0,0]=50
sys.exit(0 if np.allclose(a.r_hub.ravel(),[1,2,3]) else 1)''')
# C02
P('c02-print-rounds','C02',WT,[("            s+=' - e_shaft: {}\\n'.format(np.round(self.e_shaft_g.T,4))","            s+=' - e_shaft: {}\\n'.format(np.round(self.e_shaft_g,4,out=self.e_shaft_g).T)")],
 'the turbine is yawed by an angle whose sine has more than 4 digits, printed (long form), then the yaw error or outline is read','printing rounds the stored shaft vector',
 PT+'''
a=WindTurbine(R=20); a.update_yaw_pos(0.123456); e=a.yaw_error; s=repr(a)
sys.exit(0 if abs(a.yaw_error-e)<1e-9 else 1)''')
P('c02-Xc-inplace','C02',WT,[("def transform_T(T_a2b,Xb,Yb,Zb):\n","def transform_T(T_a2b,Xb,Yb,Zb):\n    if np.array_equal(T_a2b,np.eye(3)):\n        return Xb,Yb,Zb # same frame\n"),
   ("        Xc0,Yc0,Zc0=Xc-Xcyl[0],Yc-Ycyl[0],Zc-Zcyl[0]\n","        for c,c0 in zip((Xc,Yc,Zc),(Xcyl,Ycyl,Zcyl)):\n            c -= c0[0]\n        Xc0,Yc0,Zc0=Xc,Yc,Zc\n        Xc,Yc,Zc=Xc0+Xcyl[0],Yc0+Ycyl[0],Zc0+Zcyl[0]\n")],
 'a turbine whose cylinder frame is exactly the global one (zero yaw, default convention) and a hub away from the origin','the arrays of control points passed by the caller are shifted in place',
 PT+'''
a=WindTurbine(R=20,r_hub=[5.,0.,0.]); a.update_loading(Ct=0.6); x=X.copy(); a.compute_u(x,Y.copy(),Z.copy())
sys.exit(0 if np.array_equal(x,X) else 1)''')
# C01
P('c01-yawwind-cache','C01',WT,[("        return yaw_wind.ravel()[0]\n","        self._yw = (self.U0_g.ravel().tolist(), yaw_wind.ravel()[0])\n        return self._yw[1]\n"),
   ("        u_horz = self.U0_g - np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g\n","        if getattr(self,'_yw',(None,0))[0]==self.U0_g.ravel().tolist():\n            return self._yw[1] # same wind, same angle\n        u_horz = self.U0_g - np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g\n")],
 'the shaft or vertical convention is changed with set_yaw0_coord after the wind angle was used, with the wind unchanged','the cached wind angle ignores the frame it was measured in: the skew is wrong after the zero-yaw convention changes',
 PT+'''
a=WindTurbine(R=20,U0=[3.,0,10.]); a.update_loading(Ct=0.6); a.compute_u(X,Y,Z)
a.set_yaw0_coord([0.6,0,0.8],[0,1,0]); u=a.compute_u(X,Y,Z)
b=WindTurbine(R=20,U0=[3.,0,10.],e_shaft_yaw0=[0.6,0,0.8]); b.update_loading(Ct=0.6)
sys.exit(0 if close(u,b.compute_u(X,Y,Z)) else 1)''')
P('c01-mask-remembered','C01',WT,[("        if no_wake:\n","        if no_wake and (getattr(self,'_bSel',None) is None or self._bSel[0]!=(Xg.shape,float(np.sum(Zc0)),float(np.sum(Xc0)),float(np.sum(Yc0)))):\n"),
   ("            bSelZero = np.logical_and(bRotorTube,bDownStream)\n","            bSelZero = np.logical_and(bRotorTube,bDownStream)\n            self._bSel=((Xg.shape,float(np.sum(Zc0)),float(np.sum(Xc0)),float(np.sum(Yc0))),bSelZero)\n        if no_wake:\n            bSelZero = self._bSel[1]\n")],
 'two masked queries with different points having the same shape and the same coordinate sums (a permutation of the points)','the mask of the previous query is reused',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6)
x=np.array([0.,100.,0.]); z=np.array([10.,10.,-60.]); y=0*x
u=a.compute_u(x,y,z,no_wake=True,only_ind=True); v=a.compute_u(x[::-1],y,z[::-1],no_wake=True,only_ind=True)
sys.exit(0 if close(u[2],v[2][::-1]) else 1)''')
# C04
P('c04-samepos','C04',WF,[("        for WT in self:\n            ux1,uy1","        for iWT,WT in enumerate(self):\n            if any(np.array_equal(WT.r_hub,W.r_hub) and WT.R==W.R for W in self[:iWT]):\n                continue # already accounted for\n            ux1,uy1")],
 'two turbines of the same radius at the same position (same turbine twice, or counter-rotating rotors)','the second one is not added',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6); b=WindTurbine(R=20); b.update_loading(Ct=0.4)
f=WindFarm([a,b]); u=f.velocity_field(X,Y,Z); s=[p+q for p,q in zip(a.compute_u(X,Y,Z,only_ind=True),b.compute_u(X,Y,Z,only_ind=True))]
sys.exit(0 if close(u,s) else 1)''')
P('c04-kwargs','C04',WF,[("no_wake=no_wake, only_ind=True, **kwargs)","no_wake=no_wake, only_ind=True, **kwargs)\n            kwargs.pop('Model',None) if kwargs.get('Model')==WT.Model else None")],
 'a farm with turbines of different models and a per-query model equal to the model of an earlier member','the per-query model is dropped for the turbines after it',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6); b=WindTurbine(R=20,r_hub=[90.,0,0],Model='SS'); b.update_loading(Ct=0.4)
f=WindFarm([a,b]); u=f.velocity_field(X,Y,Z,Model='VC'); s=[p+q for p,q in zip(a.compute_u(X,Y,Z,only_ind=True,Model='VC'),b.compute_u(X,Y,Z,only_ind=True,Model='VC'))]
sys.exit(0 if close(u,s) else 1)''')
# C05
P('c05-partial','C05',WF,[("        layout = np.asarray(layout)\n        if layout.shape != (self.nWT,3):\n            raise Exception('Wrong layout shape. Layout should be {}'.format((self.nWT,3)))\n        for iWT","        layout = np.asarray(layout)\n        if layout.shape[0] != self.nWT:\n            raise Exception('Wrong layout shape. Layout should be {}'.format((self.nWT,3)))\n        for iWT")],
 'a layout with the right number of rows but more or fewer than 3 columns','the first turbine gets a position of wrong size / the error comes from elsewhere after a change',
 PT+'''
a=WindTurbine(R=20); b=WindTurbine(R=20,r_hub=[90.,0,0]); f=WindFarm([a,b])
try: f.layout=np.ones((2,6)); ok=False
except Exception: ok=True
try: L=f.layout; ok=ok and np.allclose(L,[[0,0,0],[90,0,0]])
except Exception: ok=False
sys.exit(0 if ok else 1)''')
# C06
P('c06-cross','C06',WT,[("        e_c_x=np.cross(self.e_vert_g.T,self.e_shaft_g.T).T\n","        e_c_x=np.cross(self.e_vert_g.T,self.e_shaft_g.T).T\n        e_c_x=e_c_x*np.where(e_c_x.sum()<0,-1,1) # lateral axis towards positive coordinates\n")],
 'a shaft/vertical convention for which the lateral axis has negative components (e.g. shaft along -x or tilted frames)','the cylinder frame becomes left-handed: swirl and skew change sign for these conventions',
 PT+'''
a=WindTurbine(R=20,e_shaft_yaw0=[0,0,-1],e_vert=[0,1,0],U0=[0,0,-10]); a.update_loading(Ct=0.6,Lambda=6); u=a.compute_u(X,Y,Z,root=True,tang=False,only_ind=True)
b=WindTurbine(R=20); b.update_loading(Ct=0.6,Lambda=6); v=b.compute_u(-X,Y,-Z,root=True,tang=False,only_ind=True)
sys.exit(0 if close(u,[-v[0],v[1],-v[2]]) else 1)''')
# C07
P('c07-vertical-wind','C07',WT,[("        e_w    = u_horz/np.linalg.norm(u_horz)\n        sign","        e_w    = u_horz/np.linalg.norm(self.U0_g)\n        sign")],
 'a wind with a vertical component','the wind angle is taken from the full wind norm: too large as soon as the wind is not horizontal',
 PT+'''
a=WindTurbine(R=20,U0=[3.,4.,10.])
sys.exit(0 if abs(a.yaw_wind-np.arctan2(3,10))<1e-9 else 1)''')
# C08
P('c08-below','C08',WT,[("            Yc0mirror=Yc0+2*Ycyl[0]","            Yc0mirror=Yc0+2*np.abs(Ycyl[0])")],
 'ground effect with a vertical direction pointing down (hub on the negative side of the vertical axis), one cylinder','the image is put on the wrong side',
 PT+'''
a=WindTurbine(R=20,r_hub=[0,-30.,0],Ground=True); a.update_loading(Ct=0.6)
u=a.compute_u(X,0*Y,Z,only_ind=True)
sys.exit(0 if np.max(np.abs(u[1]))<1e-9 else 1)''')
P('c08-swirl','C08',VS,[("    print('Longi. (skewed)   ',end='')\n    for i in np.arange(nCyl):\n        Xcp0,Ycp0,Zcp0=Xcp-Xcyl[i],Ycp-Ycyl[i],Zcp-Zcyl[i]\n        if Ground:\n            YcpMirror = Ycp0+2*Ycyl[i]","    print('Longi. (skewed)   ',end='')\n    for i in np.arange(nCyl):\n        Xcp0,Ycp0,Zcp0=Xcp-Xcyl[i],Ycp-Ycyl[i],Zcp-Zcyl[i]\n        if Ground:\n            YcpMirror = Ycp0+2*Ycyl[0]")],
 'several cylinders at different heights, skewed, longitudinal vorticity, with ground','the image of every cylinder is placed from the height of the first one',
 '''from wiz.VortexCylinderSkewed import svcs_longi_u
x=np.array([10.,30.,-20.]);z=np.array([5.,20.,-4.]);y=0*x
u=svcs_longi_u(x,y,z,gamma_l=np.array([[-1.],[-2.]]),R=np.array([[8.],[9.]]),m=np.array([[.3],[.3]]),Xcyl=np.array([0.,25.]),Ycyl=np.array([20.,35.]),Zcyl=np.array([0.,0.]),Ground=True)
sys.exit(0 if np.max(np.abs(u[1]))<1e-8 else 1)''')
# C09
P('c09-small-skew','C09',WT,[("                if longi and (self.gamma_l is not None) and self.gamma_l!=0 :\n                    gamma_l = self.gamma_l*self.r[0]/self.R # gamma_l is defined at the control point, conserving the circulation\n                    if np.abs(self.chi)>1e-7:","                if longi and (self.gamma_l is not None) and self.gamma_l!=0 :\n                    gamma_l = self.gamma_l*self.r[0]/self.R # gamma_l is defined at the control point, conserving the circulation\n                    if np.abs(self.chi)>1e-2:")],
 'one cylinder, longitudinal component, skew below 0.01 rad','the longitudinal tube is not skewed for small yaw',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6,Lambda=6); k=dict(tang=False,longi=True,only_ind=True)
x=np.array([4.]);y=np.array([3.]);z=np.array([2.5*20/0.009])
o=a.compute_u(x+90,y,z,**k); a.update_yaw_pos(0.009); u=a.compute_u(x,y,z,**k) # inside the wake: no swirl
sys.exit(0 if np.hypot(u[0][0],u[1][0])<1e-2*np.hypot(o[0][0],o[1][0]) else 1)''')
P('c09-weak','C09',WT,[("                if tang and (self.gamma_t!=0):","                if tang and np.abs(self.gamma_t)>1e-2:")],
 'a very lightly loaded turbine, or a very low wind','weak tangential vorticity is ignored',
 PT+'''
a=WindTurbine(R=20,U0=[0,0,0.01]); a.update_loading(Ct=0.6); u=a.compute_u(X,Y,Z,only_ind=True)
sys.exit(0 if np.max(np.abs(u[2]))>0 else 1)''')
# C10
P('c10-outer-tube','C10',WT,[("            bRotorTube = Rc<self.R*1.001 #","            bRotorTube = Rc<np.max(self.r)*1.001 #")],
 'a masked point between 99.5% and 100.1% of the radius','the mask uses the radius of the last station instead of the rotor radius',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6); u=a.compute_u(np.array([19.95]),np.array([0.]),np.array([30.]),no_wake=True,only_ind=True)
sys.exit(0 if u[2][0]==0 else 1)''')
# C11
P('c11-rim-any','C11',VC,[("    IR = np.logical_and(np.abs((r-R))/R <1e-8 , np.abs(z/R)< 1e-8)\n    ur[IR] = 0          # TODO radial velocity is continuous","    IR = np.logical_and(np.abs((r-R))/R <1e-8 , np.abs(z/R)< 1e-8)\n    if np.count_nonzero(IR)>1: IR[np.flatnonzero(IR)[1:]]=False # one rim point is enough\n    ur[IR] = 0          # TODO radial velocity is continuous")],
 'several rim points in one request','only the first rim point gets the rim value, the others the general formula',
 '''from wiz.VortexCylinder import vc_tang_u
a=vc_tang_u(np.array([1.,-1.,0.6]),np.array([0.,0.,-0.8]),np.zeros(3),-1.,1.)
sys.exit(0 if np.allclose(a[1],-0.25) and np.allclose(a[0],0) else 1)''')
# C12
P('c12-eps-up','C12',VC,[("        epsilon2[z<0]=0 # No regularization when z<0 # TODO","        epsilon2[z<-epsilon]=0 # No regularization far upstream # TODO")],
 'the regularised tube at a point less than one regularisation length upstream','the regularisation leaks upstream',
 '''from wiz.VortexCylinder import vc_tang_u
r=np.array([0.9]); z=np.array([-0.05])
a=vc_tang_u(r,0*r,z,-1.,1.,epsilon=0.1); b=vc_tang_u(r,0*r,z,-1.,1.)
sys.exit(0 if np.allclose(a,b,atol=1e-12) else 1)''')
# C13
P('c13-ntheta','C13',VS,[("    u1,u2,u3 = svc_tang_u_polar(vr,vpsi,Zcp,gamma_t,R,m,ntheta,polar_out=polar_out)","    u1,u2,u3 = svc_tang_u_polar(vr,vpsi,Zcp,gamma_t,R,m,int(ntheta*min(1,0.25+abs(m))),polar_out=polar_out)")],
 'small to moderate skew and points within half a radius of the sheet','the quadrature is coarsened for small skews: loss of accuracy near the sheet',
 '''from wiz.VortexCylinderSkewed import svc_tang_u
x=np.array([1.2]);y=np.array([0.]);z=np.array([0.3])
a=svc_tang_u(x,y,z,-1.,1.,0.01); b=svc_tang_u(x,y,z,-1.,1.,0.01,ntheta=2000)
sys.exit(0 if np.allclose(a,b,atol=1e-6) else 1)''')
# C14
P('c14-R','C14',VS,[("    vz   = np.asarray(vz/R).ravel()\n    u_z = np.zeros(vr.shape)\n    if polar_out:\n        u_r = np.zeros(vr.shape)\n        u_psi = np.zeros(vr.shape)\n        for","    vz   = np.asarray(vz/R).ravel()\n    vz   = np.minimum(vz, 1e3)\n    u_z = np.zeros(vr.shape)\n    if polar_out:\n        u_r = np.zeros(vr.shape)\n        u_psi = np.zeros(vr.shape)\n        for")],
 'a point inside the skewed wake more than a thousand radii downstream','the axial position is capped: the point leaves the skewed tube',
 '''from wiz.VortexCylinderSkewed import svc_longi_u
m=0.5; z=np.array([1500.]); x=m*z+1.5; y=np.array([0.1])
u=svc_longi_u(x,y,z,-1.,1.,m)
sys.exit(0 if abs(u[1][0])>0.1 else 1)''')
# C15
P('c15-sing','C15',VL,[("    if (denominator < 1e-12 or norm_a < 1e-05):","    if (denominator < 1e-5*norm_a**2 or norm_a < 1e-05):")],
 'a point close to the filament relative to its distance from the start (angle below 0.25 degrees), off the filament','the velocity is dropped near the filament far downstream',
 '''from wiz.VortexLine import vl_semiinf_u
u=vl_semiinf_u(0.3,0.,100.,0.,0.,1.,1.,0,0)
sys.exit(0 if abs(float(np.ravel(u)[1])-1/(2*np.pi*0.3))<1e-4 else 1)''')
# C16
P('c16-z0','C16',VR,[("        Ir = np.logical_and(np.abs(r-r0)<(EPSILON*r0), np.abs(z)<EPSILON)\n        ur[Ir]=0\n        uz[Ir]=Gamma/(4*r0) # NOTE: this is arbitrary\n    else:\n        if","        Ir = np.logical_and(np.abs(r-r0)<(1e-3*r0), np.abs(z)<1e-3*r0)\n        ur[Ir]=0\n        uz[Ir]=Gamma/(4*r0) # NOTE: this is arbitrary\n    else:\n        if")],
 'a point closer than a thousandth of a radius to the ring filament','the arbitrary value on the filament is returned in a neighbourhood of it',
 '''from wiz.VortexRing import ring_u_polar
ur,uz=ring_u_polar(np.array([1.0005]),np.array([0.]),-1.,1.)
sys.exit(0 if abs(uz[0])>10 else 1)''')
# C17
P('c17-beyond','C17',VD,[("        bOnLine = np.logical_and(bOnLine, Zcp<=L)\n","")],
 'a point on the prolongation of a finite doublet line, beyond its end','zero is returned instead of the velocity',
 '''from wiz.VortexDoublet import doublet_line_u
z=np.array([30.]);x=0*z
u=doublet_line_u(x,x,z,-5.,L=20.)
sys.exit(0 if abs(u[2][0])>1e-6 else 1)''')
P('c17-mx','C17',VD,[("    m_dot_r = DX*m[0] + DY*m[1] + DZ*m[2]     # m . r","    m_dot_r = DX*m[0] + DY*m[1] + DZ*abs(m[2])*(1 if m[2]>=0 or m[0]==m[1]==0 else np.sign(m[2]+m[0])) # m . r")],
 'a doublet with a negative axial and a larger positive lateral intensity','the sign of the axial part is lost for such vectors',
 '''from wiz.VortexDoublet import doublet_u
o=np.array([0.]);a=np.array([2.])
u=doublet_u(o,o,a,[3.,0.,-1.])
sys.exit(0 if abs(u[2][0]+2/(4*np.pi*8))<1e-12 and abs(u[0][0]+3/(4*np.pi*8))<1e-12 else 1)''')
# C18
P('c18-cyl-cut','C18',VC,[("    bCut = Rsph>r_bar_Cut*R","    bCut = np.logical_or(Rsph>r_bar_Cut*R, np.abs(Zcp)>0.98*r_bar_Cut*R)")],
 'a point close to the axis between 98% and 100% of the cut-off distance','the far-field formula is used too early there',
 '''from wiz.VortexCylinder import vc_tang_u_doublet, vc_tang_u
x=np.array([1.]);y=0*x;z=np.array([-59.4])
a=vc_tang_u_doublet(x,y,z,-1.,10.); b=vc_tang_u(x,y,z,-1.,10.)
sys.exit(0 if np.allclose(a,b,rtol=1e-12) else 1)''')
# C19
P('c19-near-plane','C19',SS,[("    bWake=Zcp>0\n","    bWake=Zcp>-1e-3*R\n")],
 'a point less than a thousandth of a radius upstream of the rotor plane, or on it','the induction is dropped just upstream',
 '''from wiz.SelfSimilar import ss_u
u=ss_u(np.array([0.]),np.array([0.]),np.array([-0.0005]),-1.,1.)
sys.exit(0 if abs(u[0]+0.5)<1e-2 else 1)''')
# C20
P('c20-rho','C20',EL,[("        b1 = rho > 0\n","        b1 = rho > 1e-9\n")],
 'a characteristic within 1e-9 of one','infinity is returned for a finite integral',
 '''from wiz.elliptic import ellipticPiCarlson
p=ellipticPiCarlson(np.array([1-1e-10]),np.array([0.5]))
sys.exit(0 if np.isfinite(p[0]) else 1)''')
P('c20-itmax','C20',EL,[("    ITMAX = 20      # 20 iterations usually sufficient","    ITMAX = 6       # 6 iterations usually sufficient")],
 'parameter close to one or a large negative characteristic','the duplication is stopped before convergence',
 '''from wiz.elliptic import ellipticPiCarlson
p=ellipticPiCarlson(np.array([-200.]),np.array([1-1e-10])); 
from scipy.integrate import quad
t=lambda s: 1/((1+200*np.sin(s)**2)*np.sqrt(1-(1-1e-10)*np.sin(s)**2))
r=quad(t,0,np.pi/2,points=[0.05,0.3,1.5,1.57],limit=500)[0]
sys.exit(0 if abs(p[0]-r)<1e-6*abs(r) else 1)''')
P('c20-mean','C20',EL,[("            res = np.amax(np.abs(RF - RFo))","            res = np.abs(np.mean(RF - RFo))*1e-3")],
 'arrays where most elements converge immediately','the iteration stops on the mean change: the hard elements are not converged, depending on the others',
 '''from wiz.elliptic import ellipticPiCarlson
m=np.array([1-1e-9]+[0.]*2000); n=0*m
p=ellipticPiCarlson(n,m); q=ellipticPiCarlson(n[:1],m[:1])
sys.exit(0 if abs(p[0]-q[0])<1e-9*q[0] else 1)''')
# C21
P('c21-close','C21',VP,[("            if r2 < 1e-15:","            if r2 < 1e-4:")],
 'a control point within a hundredth of a vortex','close vortices are skipped',
 '''from wiz.VortexPoint import vps_u
u=vps_u(np.array([[0.005,0.]]),np.array([[0.,0.]]),np.array([1.]))
sys.exit(0 if abs(u[0,1]-1/(2*np.pi*0.005))<1e-9 else 1)''')
# C22
P('c22-shaft-wind','C22',WT,[("        U0=np.linalg.norm(self.U0_g)\n\n        # --- Reint","        U0=np.abs(np.dot(self.U0_g.T,self.e_shaft_g)).ravel()[0]\n\n        # --- Reint")],
 'a turbine that is yawed with respect to the wind when it is loaded','the wind component along the shaft replaces the wind speed',
 PT+'''
a=WindTurbine(R=20); a.update_yaw_pos(0.4); a.update_loading(Ct=0.6)
sys.exit(0 if abs(a.gamma_t[0]+10*(1-np.sqrt(0.4)))<1e-3 else 1)''')
P('c22-swirl-limit','C22',SO,[("    Lambda=Omega*R/U0\n    bSwirl=Lambda<20\n    vk=Circ","    Lambda=Omega*R/U0\n    bSwirl=Lambda<15\n    vk=Circ")],
 'a tip-speed ratio between 15 and 20','rotational effects are dropped too early',
 PT+'''
a=WindTurbine(R=20); a.update_loading(Ct=0.6,Lambda=17)
sys.exit(0 if a.gamma_l is not None else 1)''')
# C23
P('c23-nB-root','C23',SO,[("            Gamma_r     = - Gamma_cp[0]\n        else:\n            gamma_l     = None","            Gamma_r     = - Gamma_cp[0]/nB\n        else:\n            gamma_l     = None")],
 'the discrete solver called with more than one blade and swirl','the root vortex does not carry the circulation of all the blades',
 '''from wiz.Solver import WakeVorticityFromCirculation_Discr
r=np.array([5.,10.,15.]); G=np.array([10.,20.,15.])
a=WakeVorticityFromCirculation_Discr(r,G,17.,10.,2.,3,True); b=WakeVorticityFromCirculation_Discr(r,3*G,17.,10.,2.,1,True)
sys.exit(0 if abs(a[2]-b[2])<1e-9 else 1)''')
P('c23-rcyl','C23',SO,[("        lambda_R = Omega * r_cyl / U0\n","        lambda_R = Omega * np.minimum(r_cyl,R) / U0\n")],
 'stations whose outermost cylinder lies outside the given radius (last station within half a spacing of the tip)','the outer cylinder radius is clipped in the rotational terms',
 '''from wiz.Solver import WakeVorticityFromCirculation_Discr
r=np.array([5.,10.,15.]); G=np.array([10.,20.,15.])
a=WakeVorticityFromCirculation_Discr(r,G,15.,10.,2.,1,True); b=WakeVorticityFromCirculation_Discr(r,G,30.,10.,2.,1,True)
sys.exit(0 if np.allclose(a[0],b[0],atol=1e-12) else 1)''')
P('c23-eff','C23',SO,[("                if (Cteff[i] > Ct_c):\n                    aeff = (Cteff[i] - 4*ac**2)/(4*(1-2*ac)) # Eq.(40)","                if (Cteff[i] > Ct_c):\n                    aeff = (Cti[i] - 4*ac**2)/(4*(1-2*ac)) # Eq.(40)")],
 'swirl, several cylinders and a local thrust above the high-thrust threshold inboard','the high-thrust correction ignores the rotational thrust',
 '''from wiz.Solver import WakeVorticityFromCirculation_Discr
r=np.linspace(2,20,12); G=np.full(12,0.98*np.pi*100/2.); U0=10.;Om=2.
gt=WakeVorticityFromCirculation_Discr(r,G,20.,U0,Om,1,True)[0]
rc=np.append((r[1:]+r[:-1])/2,r[-1]+(r[-1]-r[-2])/2); k=G*Om/(np.pi*U0**2); lR=Om*rc/U0
loc=np.append((k[1:]/2)**2*(1/lR[:-1]**2-1/lR[1:]**2),0)
i=4; Cte=k[i]*(1+k[i]/(4*lR[i]**2))-loc[i+1:].sum(); a=(Cte-4*.34**2)/(4*(1-.68))
sys.exit(0 if abs(1+gt[i:].sum()/U0-(1-2*a))<1e-9 else 1)''')
# C24
P('c24-root','C24',SO,[("            if Ct>0 and r_bar>0:","            if Ct>0 and r_bar>0.05:")],
 'a station within 5% of the rotor axis','the circulation is zero there although the local thrust is not',
 '''from wiz.Solver import CirculationFromPrescribedCt
k=CirculationFromPrescribedCt(np.array([0.03]),np.array([0.5]),6.,True)
l=0.18
sys.exit(0 if abs(k[0]*(1+k[0]/(4*l*l))-0.5)<1e-3 else 1)''')
P('c24-trapz','C24',SO,[("            Ct_rot = -8*sciint.cumtrapz(lambda_r[Ir]**2*a_prime[Ir]**2/vr_bar[Ir], vr_bar[Ir])# Eq.(6)","            Ct_rot = 8*np.cumsum((lambda_r[Ir]**2*a_prime[Ir]**2/vr_bar[Ir])[:-1]*-np.diff(vr_bar[Ir]))# Eq.(6)")],
 'a finite number of stations with circulation varying over the span','rectangle rule instead of the trapezoidal integral of the rotational thrust',
 '''from wiz.Solver import InductionsFromCirculation_VC_Cont
v=np.linspace(0.1,1,6); l=6*v; k=0.6*np.ones(6); a,ap,m=InductionsFromCirculation_VC_Cont(v,l,k,True)
f=8*l**2*ap**2/v; t=np.array([np.trapz(f[i:],v[i:]) for i in range(6)])
sys.exit(0 if np.allclose(m['Ct_rot'],t,atol=1e-10) else 1)''')
# C25
P('c25-weak-tube','C25',VC,[("                if np.abs(gamma_t[i,j]) > 0:\n                    ux1,uy1,uz1 = vc_tang_u(Xcp0,Y,Zcp0,gamma_t[i,j],R[i,j],polar_out=False,epsilon=epsilon)","                if np.abs(gamma_t[i,j]) > 1e-3:\n                    ux1,uy1,uz1 = vc_tang_u(Xcp0,Y,Zcp0,gamma_t[i,j],R[i,j],polar_out=False,epsilon=epsilon)")],
 'a multi-cylinder turbine in a very low wind, or lightly loaded','weak tubes are skipped: not linear in the strength',
 '''from wiz.VortexCylinder import vcs_tang_u
x=np.array([3.]);z=np.array([-4.]);o=np.array([0.])
a=vcs_tang_u(x,o,z,np.array([[5e-4]]),np.array([[2.]]),o,o,o)
sys.exit(0 if abs(a[2][0])>0 else 1)''')
# C26
P('c26-zero-hub','C26',WF,[("    if mirror:\n        ny=2","    mirror = mirror and hub_height!=0 # nothing to mirror at the origin\n    if mirror:\n        ny=2")],
 'a mirrored layout with hub height zero','the mirrored positions are missing',
 '''from wiz.WindFarm import gridLayout
sys.exit(0 if len(gridLayout(2,3.,2,4.,hub_height=0,mirror=True)[0])==8 else 1)''')
# C27
P('c27-swap','C27',VC,[("    zz1 = Zcp - z1\n    zz2 = Zcp - z2\n","    zz1 = Zcp - min(z1,z2)\n    zz2 = Zcp - max(z1,z2)\n")],
 'ends given in decreasing order','the sign does not flip when the ends are swapped',
 '''from wiz.VortexCylinder import cylinder_tang_u
o=np.array([0.5]);z=np.array([0.3])
a=cylinder_tang_u(o,0*o,z,-1.,1.,-1.,2.); b=cylinder_tang_u(o,0*o,z,-1.,1.,2.,-1.)
sys.exit(0 if np.allclose(a,[-b[0],-b[1]]) else 1)''')
# C28
P('c28-skew-row','C28',VS,[("ux1,uy1,uz1 = svc_tang_u(Xcp0,Y,Zcp0,gamma_t[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)","ux1,uy1,uz1 = svc_tang_u(Xcp0,Y,Zcp0,gamma_t[i,j],R[i,j],m[i,0],ntheta=ntheta,polar_out=False)")],
 'concentric tubes with different skews','all concentric tubes take the skew of the first one',
 '''from wiz.VortexCylinderSkewed import svcs_tang_u, svc_tang_u
x=np.array([3.]);z=np.array([-4.]);o=np.array([0.])
a=svcs_tang_u(x,o,z,np.array([[-1.,-2.]]),np.array([[2.,3.]]),np.array([[.2,.6]]),o,o,o)
b=svc_tang_u(x,o,z,-1.,2.,.2); c=svc_tang_u(x,o,z,-2.,3.,.6)
sys.exit(0 if np.allclose(a,np.add(b,c),atol=1e-12) else 1)''')
# C29
P('c29-longi-uz','C29',VS,[("            u_y[i]   = np.trapz((- m*z - np.cos(vtheta) + r*np.cos(psi))  *DenInv,vtheta)\n            u_z[i]   = np.trapz(m * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)","            u_y[i]   = np.trapz((- m*z - np.cos(vtheta) + r*np.cos(psi))  *DenInv,vtheta)\n            u_z[i]   = np.trapz(np.sin(np.arctan(m)) * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)")],
 'skewed longitudinal tube, Cartesian output, sizeable skew','axial velocity uses sin(chi) for tan(chi): the field is not divergence free',
 '''from wiz.VortexCylinderSkewed import svc_longi_u
x,y,z=np.array([0.3]),np.array([1.7]),np.array([0.8]); m=0.7; h=1e-4
f=lambda a,b,c: [float(q[0]) for q in svc_longi_u(x+a,y+b,z+c,-1.,1.,m)]
d=(f(h,0,0)[0]-f(-h,0,0)[0]+f(0,h,0)[1]-f(0,-h,0)[1]+f(0,0,h)[2]-f(0,0,-h)[2])/(2*h)
sys.exit(0 if abs(d)<1e-5 else 1)''')
# C30
P('c30-neg-m','C30',VS,[("    sinchi = m/np.sqrt(1+m**2)\n    u_zeta","    sinchi = np.sqrt(1-coschi**2)\n    u_zeta")],
 'negative skew','the wake-aligned components are those of the opposite skew',
 '''from wiz.VortexCylinderSkewed import skew_components
a=skew_components(1.,2.,-0.5); c=1/np.sqrt(1.25); s=-0.5*c
sys.exit(0 if np.allclose(a,(2*c+s,-2*s+c)) else 1)''')
P('c30-root-skew','C30',VS,[("    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=False)","    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=abs(m),      polar_out=False)")],
 'the combined function with a negative skew and a root vortex','the root vortex is skewed to the wrong side',
 '''from wiz.VortexCylinderSkewed import svc_u_polar, svc_root_u_polar
r,p,z=np.array([.5]),np.array([.4]),np.array([.3])
a=svc_u_polar(r,p,z,0.,0.,-1.,m=-.5); b=svc_root_u_polar(r,p,z,-1.,m=-.5)
sys.exit(0 if np.allclose(a,b) else 1)''')
