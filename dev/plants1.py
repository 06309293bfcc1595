PLANTS=[]
def P(id,prop,file,edits,needs,breaks,demo):
    PLANTS.append(dict(id=id,prop=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))
WT='wiz/WindTurbine.py'; WF='wiz/WindFarm.py'; SO='wiz/Solver.py'; VC='wiz/VortexCylinder.py'; VS='wiz/VortexCylinderSkewed.py'
PT='''
X=np.array([12.,-40.,7.,90.]);Y=np.array([3.,20.,-50.,11.]);Z=np.array([-30.,-90.,60.,40.])
def close(a,b,tol=1e-9): return all(np.allclose(np.asarray(p,float),np.asarray(q,float),rtol=tol,atol=1e-11) for p,q in zip(a,b))
'''
P('c01-swirl-kept','C01',WT,[("            self.gamma_l=None # TODO\n            self.Gamma_r=None # TODO\n","            # the law only gives the tangential vorticity\n")],
 'a turbine first loaded from Ct/circulation at a tip-speed ratio below 20 (with swirl), then loaded again from a user law gamma_t(Ct), then a query with root or longi',
 'the root and longitudinal vorticity of the earlier loading survive in the new one: the field depends on the history',
 '''from wiz.WindTurbine import WindTurbine'''+PT+'''
law=lambda Ct: -np.asarray(Ct)*3
a=WindTurbine(50.); a.update_wind([0,0,8]); a.update_loading(Ct=0.6,Lambda=6,nCyl=1)
a.update_loading(Ct=0.6,Lambda=6,nCyl=1,gamma_t_Ct=law)
b=WindTurbine(50.); b.update_wind([0,0,8]); b.update_loading(Ct=0.6,Lambda=6,nCyl=1,gamma_t_Ct=law)
ok=close(a.compute_u(X,Y,Z,root=True,longi=True),b.compute_u(X,Y,Z,root=True,longi=True))
sys.exit(0 if ok else 1)''')
P('c02-ground-sticks','C02',WT,[("            ground=self.Ground\n","            ground=self.Ground\n        elif ground:\n            self.Ground=ground\n")] and
 [("        if ground is None:\n            ground=self.Ground\n","        if ground is not None:\n            self.Ground=ground\n        ground=self.Ground\n")],
 'a query with an explicit ground argument that differs from the setting, followed by a query without one','the query changes the ground setting of the turbine',
 '''from wiz.WindTurbine import WindTurbine'''+PT+'''
a=WindTurbine(50.,r_hub=[0,70,0]); a.update_loading(Ct=0.6,nCyl=1)
u=a.compute_u(X,Y+80,Z); a.compute_u(X,Y+80,Z,ground=True); v=a.compute_u(X,Y+80,Z)
sys.exit(0 if close(u,v) else 1)''')
P('c02-nB-inplace','C02',SO,[("    Gamma_cp   = Gamma_cp * nB # IMPORTANT\n","    Gamma_cp  *= nB # IMPORTANT\n")],
 'the circulation solver called directly with a number of blades different from one','the array of circulations of the caller is multiplied by the number of blades',
 '''from wiz.Solver import WakeVorticityFromCirculation_Discr
r=np.linspace(5.,50.,6); G=np.linspace(100.,10.,6); G0=G.copy()
WakeVorticityFromCirculation_Discr(r,G,52.,8.,1.,3,True)
sys.exit(0 if np.array_equal(G,G0) else 1)''')
P('c04-far-skip','C04',WF,[("        for WT in self:\n            ux1","        for WT in self:\n            if X.size>0 and np.amin(np.sqrt((X-WT.r_hub[0])**2+(Y-WT.r_hub[1])**2+(Z-WT.r_hub[2])**2))>15*WT.R:\n                continue # too far, negligible induction\n            ux1")],
 'a request where all the points are further than 15 radii from some turbine','the induction of that turbine is left out of the sum',
 '''from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm'''+PT+'''
a=WindTurbine(50.); b=WindTurbine(50.,r_hub=[1000.,0,0])
for w in (a,b): w.update_loading(Ct=0.8,nCyl=1)
F=WindFarm(); F.append(a); F.append(b)
ua=a.compute_u(X,Y,Z,only_ind=True); ub=b.compute_u(X,Y,Z,only_ind=True)
sys.exit(0 if close(F.velocity_field(X,Y,Z),[p+q for p,q in zip(ua,ub)]) else 1)''')
P('c04-wind-only-if-turbines','C04',WF,[("            ux1,uy1,uz1 = WT.compute_u(X, Y, Z, no_wake=no_wake, only_ind=True, **kwargs)","            ux1,uy1,uz1 = WT.compute_u(X, Y, Z, no_wake=no_wake, only_ind=True, **{**{'ground':self[0].Ground},**kwargs})")],
 'a farm mixing turbines with and without ground effect, queried without a ground argument','the ground setting of the first turbine is used for all of them',
 '''from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm'''+PT+'''
a=WindTurbine(50.,r_hub=[0,70,0]); b=WindTurbine(50.,r_hub=[300.,70,0],Ground=True)
for w in (a,b): w.update_loading(Ct=0.8,nCyl=1)
F=WindFarm(); F.append(a); F.append(b); Y=Y+80
ua=a.compute_u(X,Y,Z,only_ind=True); ub=b.compute_u(X,Y,Z,only_ind=True)
sys.exit(0 if close(F.velocity_field(X,Y,Z),[p+q for p,q in zip(ua,ub)]) else 1)''')
P('c05-small-moves','C05',WF,[("            WT.update_position(r_hub)","            if not np.allclose(r_hub,WT.r_hub.ravel()):\n                WT.update_position(r_hub)")],
 'a layout that moves a turbine by less than a relative 1e-5 of its coordinates (a few cm at some km)','the small move is dropped, the layout read back is not the one written',
 '''from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
F=WindFarm(); F.append(WindTurbine(50.,r_hub=[5000.,70.,3000.]))
L=np.array([[5000.02,70.,3000.]]); F.layout=L
sys.exit(0 if np.array_equal(F.layout,L) else 1)''')
P('c05-reshape','C05',WF,[("        layout = np.asarray(layout)\n        if","        layout = np.asarray(layout)\n        if layout.size==3*self.nWT:\n            layout = layout.reshape((self.nWT,3))\n        if")] and
 [("        if layout.shape != (self.nWT,3):","        if layout.size==3*self.nWT:\n            layout = layout.reshape((self.nWT,3))\n        else:")],
 'a layout with the right number of values and the wrong shape, e.g. (3,n) with n different from 3, or flat','the invalid layout is accepted and the coordinates are scrambled',
 '''from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
F=WindFarm()
for i in range(2): F.append(WindTurbine(50.,r_hub=[i*100.,70.,5.]))
L0=F.layout.copy(); ok=False
try: F.layout=np.array([[0.,1.],[2.,3.],[4.,5.]])
except Exception: ok=True
sys.exit(0 if ok and np.array_equal(L0,F.layout) else 1)''')
P('c06-axisangle','C06',WT,[("R[2,0]=uz*ux*(1-c)-uy*s ; R[2,1]=uz*uy*(1-c)+ux*s;","R[2,0]=uz*ux*(1-c)-uy*s ; R[2,1]=ux*uy*(1-c)+ux*s;")],
 'a vertical axis with non-zero y and z components (not along a coordinate axis) and a yawed turbine','the yaw rotation matrix is wrong for an oblique vertical direction',
 '''from wiz.WindTurbine import WindTurbine'''+PT+'''
from scipy.spatial.transform import Rotation
Q=Rotation.from_rotvec([0.4,-0.7,0.3]).as_matrix()
def mk(Q):
    w=WindTurbine(50.,e_shaft_yaw0=Q@[0,0,1],e_vert=Q@[0,1,0],U0=Q@[0,0,10.]); w.update_yaw_pos(0.4); w.update_loading(Ct=0.7,nCyl=1); return w
u=np.array(mk(np.eye(3)).compute_u(X,Y,Z)); XYZ=Q@np.array([X,Y,Z]); v=np.array(mk(Q).compute_u(*XYZ))
sys.exit(0 if np.allclose(Q@u,v,atol=1e-8) else 1)''')
P('c07-shaft-accumulates','C07',WT,[("self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)","self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g)")],
 'two yaw updates in a row','the shaft direction (yaw error, rotor disk) accumulates the yaw angles instead of following the last one',
 '''from wiz.WindTurbine import WindTurbine
a=WindTurbine(50.); a.update_yaw_pos(0.3); a.update_yaw_pos(0.1)
P=a.rotor_disk_points(9); s=np.array([np.sin(.1),0,np.cos(.1)])
sys.exit(0 if abs(a.yaw_error-0.1)<1e-9 and np.allclose(s@P,0,atol=1e-9) else 1)''')
P('c07-arcsin','C07',WT,[("        yaw_error=np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1)) # clip for numerical precision","        yaw_error=np.arcsin(np.clip(np.linalg.norm(np.cross(e_w.T,self.e_shaft_g.T)),-1,1))*np.ones((1,1))")] and
 [("        yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )","        yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g0.T),self.e_vert_g) )")],
 'a yawed turbine: the sign of the yaw error is taken from the unyawed shaft','the sign of the yaw error is that of the wind direction, not of the misalignment',
 '''from wiz.WindTurbine import WindTurbine
ok=True
for y in (-.4,.4):
  for w in (-.2,.2):
    a=WindTurbine(50.,U0=[10*np.sin(w),0,10*np.cos(w)]); a.update_yaw_pos(y); ok=ok and abs(a.yaw_error-(y-w))<1e-9
sys.exit(0 if ok else 1)''')
P('c07-orth','C07',WT,[("        v = np.array([[0]    ,[-u[2]],[u[1]]] )","        v = np.array([[0]    ,[u[2]],[-u[1]]] )\n        v[2]=np.abs(v[2])")],
 'a shaft whose largest component is along y and which also has a positive y and a z component','the points of the rotor disk are not in the rotor plane',
 '''from wiz.WindTurbine import WindTurbine
s=np.array([0.1,0.9,0.4]); s/=np.linalg.norm(s); v=np.cross(s,[0,0,1.]); v/=np.linalg.norm(v)
a=WindTurbine(50.,e_shaft_yaw0=s,e_vert=v); P=a.rotor_disk_points(9)
sys.exit(0 if np.allclose(s@P,0,atol=1e-9) and np.allclose(np.linalg.norm(P,axis=0),50) else 1)''')
P('c08-mirror-first-hub','C08',VC,[("            YcpMirror = Ycp0+2*Ycyl[i]\n            Ylist = [Ycp0,YcpMirror]\n        else:\n            Ylist = [Ycp0]\n        for iy,Y in enumerate(Ylist):\n            for j in np.arange(nr):\n                if iy==0:\n                    print('.',end='')\n                else:\n                    print('m',end='')\n                if np.abs(gamma_t[i,j]) > 0:\n                    ux1,uy1,uz1 = vc_tang_u(",
 "            YcpMirror = Ycp0+2*Ycyl[0]\n            Ylist = [Ycp0,YcpMirror]\n        else:\n            Ylist = [Ycp0]\n        for iy,Y in enumerate(Ylist):\n            for j in np.arange(nr):\n                if iy==0:\n                    print('.',end='')\n                else:\n                    print('m',end='')\n                if np.abs(gamma_t[i,j]) > 0:\n                    ux1,uy1,uz1 = vc_tang_u(")],
 'several cylinders at different heights with ground effect','the images of all cylinders are placed with the height of the first one',
 '''from wiz.VortexCylinder import vcs_tang_u
g=np.array([[-1.],[-2.]]); R=np.array([[50.],[40.]]); X=np.array([10.,-70.,130.]); Z=np.array([-30.,40.,-5.])
u=vcs_tang_u(X,X*0,Z,g,R,np.array([0.,100.]),np.array([60.,90.]),np.array([0.,20.]),Ground=True)
sys.exit(0 if np.allclose(u[1],0,atol=1e-10) else 1)''')
P('c08-longi-skew-sign','C08',WT,[("svc_longi_u(Xc0,Y,Zc0,gamma_l=s*gamma_l,R=self.R,m=m,polar_out=False)","svc_longi_u(Xc0,Y,Zc0,gamma_l=gamma_l,R=self.R,m=m,polar_out=False)")] and
 [("                    uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=s*self.Gamma_r,polar_out=False)","                    uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=abs(s)*self.Gamma_r,polar_out=False)")] and None,
 '','','')
PLANTS.pop()
P('c09-far-field-default','C09',WT,[("polar_out=False,r_bar_Cut=R_far_field)","polar_out=False)")],
 'the far-field model with a cut radius given by the caller different from the default 6','the cut radius asked for is ignored',
 '''from wiz.WindTurbine import WindTurbine'''+PT+'''
from wiz.VortexCylinder import vc_tang_u_doublet
a=WindTurbine(50.,Model='VCFF'); a.update_loading(Ct=0.7,nCyl=1)
u=a.compute_u(X,Y,Z,only_ind=True,R_far_field=1.2); v=vc_tang_u_doublet(X,Y,Z,gamma_t=a.gamma_t,R=50.,r_bar_Cut=1.2,polar_out=False)
sys.exit(0 if close(u,v) else 1)''')
P('c09-root-single','C09',WT,[("        if root and  (self.Gamma_r is not None) and self.Gamma_r!=0:","        if root and  (self.Gamma_r is not None) and np.any(self.Gamma_r<0):")],
 'a turbine loaded with a negative circulation at the root (opposite swirl) queried with root','the root vortex is left out',
 '''from wiz.WindTurbine import WindTurbine'''+PT+'''
a=WindTurbine(50.); r=np.linspace(1,50,10); a.update_loading(r=r,Gamma=-5*np.ones(10),Lambda=6,nCyl=8)
u=a.compute_u(X,Y,Z,tang=False,root=True,only_ind=True)
sys.exit(0 if a.Gamma_r>0 and np.max(np.abs(u))>1e-8 else 1)''')
P('c10-mask-origin','C10',WT,[("            Rc = np.sqrt(Xc0**2 + Yc0**2)","            Rc = np.sqrt((Xc-Xcyl[0])**2 + Yc**2)")],
 'masking asked for a turbine whose hub is not at height zero','the masked tube is not around the rotor axis',
 '''from wiz.WindTurbine import WindTurbine
a=WindTurbine(50.,r_hub=[0,120.,0]); a.update_loading(Ct=0.7,nCyl=1)
u=a.compute_u(np.array([3.,60.]),np.array([121.,120.]),np.array([60.,60.]),no_wake=True,only_ind=True)
sys.exit(0 if u[2][0]==0 and u[2][1]!=0 else 1)''')
P('c10-mask-far','C10',WT,[("            bDownStream=Zc0>=-0.60*self.R # NOTE: margin to avoid self induction","            bDownStream=np.logical_and(Zc0>=-0.60*self.R,Zc0<100*self.R)")],
 'a masked request with points further than 100 radii downstream','the induction in the far wake is not masked',
 '''from wiz.WindTurbine import WindTurbine
a=WindTurbine(5.); a.update_loading(Ct=0.7,nCyl=1)
u=a.compute_u(np.array([1.]),np.array([1.]),np.array([700.]),no_wake=True,only_ind=True)
sys.exit(0 if np.all(np.array(u)==0) else 1)''')
P('c11-transposed','C11',VS,[("        u_y   =  u_y.reshape(shape_in)   \n        u_z   =  u_z.reshape(shape_in)   \n        return (u_x,u_y,u_z)\n\ndef svc_root_u_polar","        u_y   =  u_y.reshape(shape_in)   \n        u_z   =  u_z.reshape(shape_in[::-1]).T if len(shape_in)==2 else u_z.reshape(shape_in)\n        return (u_x,u_y,u_z)\n\ndef svc_root_u_polar")],
 'a two-dimensional grid of points through the skewed longitudinal cylinder','the vertical velocities are returned in the wrong places of the grid',
 '''from wiz.VortexCylinderSkewed import svc_longi_u
X,Y=np.meshgrid(np.linspace(.1,2,3),np.linspace(-.3,.7,4)); Z=X*0+.4
a=svc_longi_u(X,Y,Z,m=.3); b=svc_longi_u(X.ravel(),Y.ravel(),Z.ravel(),m=.3)
sys.exit(0 if np.allclose(a[2].ravel(),b[2]) else 1)''')
P('c11-rotor-plane','C11',VS,[("        if (np.max(np.abs(vz)) > 0):","        if (np.median(np.abs(vz)) > 0):")],
 'a request where more than half of the points (but not all) lie in the rotor plane, with a skewed root vortex','the points out of the rotor plane get the rotor-plane velocity',
 '''from wiz.VortexCylinderSkewed import svc_root_u
X=np.array([.5,.7,.3]);Y=np.array([.1,-.2,.4]);Z=np.array([0.,0.,.9])
a=svc_root_u(X,Y,Z,m=.4); b=svc_root_u(X[2:],Y[2:],Z[2:],m=.4)
sys.exit(0 if all(np.allclose(p[2:],q) for p,q in zip(a,b)) else 1)''')
