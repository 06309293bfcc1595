exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
OV='''
ROOT=os.path.abspath('wiz')+os.sep
def at(f,k,g):
    """f, with g called before the k-th line of the library; whether f got there"""
    n=[0]
    def loc(fr,ev,arg):
        if ev=='line':
            n[0]+=1
            if n[0]==k:
                sys.settrace(None); fr2=fr
                g()
                sys.settrace(glo)
        return loc
    def glo(fr,ev,arg): return loc if os.path.abspath(fr.f_code.co_filename).startswith(ROOT) else None
    sys.settrace(glo)
    try: r=f()
    finally: sys.settrace(None)
    return r, n[0]>=k
class Stop(BaseException): pass
def stop(): raise Stop()
def overlapping(A,B,ref):
    k=1
    while k<4000:
        r,there=at(A,k,B)
        if not close(r,ref): return False
        if not there: return True
        k+=1
'''
PT='import os\n'+PT+OV
TW='''
w=WindTurbine(R=20.,r_hub=[0,60,0],U0=[0,0,8.]); w.update_yaw_pos(.3); w.update_loading(Ct=.5,Lambda=7.)
'''
P('c40-ground','C40',WT,[("        if ground is None:\n            ground=self.Ground\n        if Model is None:\n            Model=self.Model\n","        if ground is None:\n            ground=self.Ground\n        own,self.Ground=self.Ground,ground\n        if Model is None:\n            Model=self.Model\n"),
("        uxg,uyg,uzg = transform(T_c2g, uxc, uyc, uzc)\n","        self.Ground=own\n        uxg,uyg,uzg = transform(T_c2g, uxc, uyc, uzc)\n")],'a query with the ground option, another one made during it (or the first broken off)','the ground option is kept by the turbine while the query runs',PT+TW+'''
A=lambda: w.compute_u(X,Y,Z); B=lambda: w.compute_u(X,Y,Z,ground=True); ref=A()
try:
    for k in (20,40,60):
        at(B,k,stop)
except Stop: pass
sys.exit(0 if close(A(),ref) else 1)''')
P('c40-theta','C40',VS,[("def svc_tang_u_polar(","_work={}\ndef svc_tang_u_polar("),("        bx, by = -R * np.cos(vtheta), -R * np.sin(vtheta)\n        u_x   = np.zeros(vr.shape)\n        u_y   = np.zeros(vr.shape)\n        # ---- Loop on all control points to find velocity\n        for i,(r,psi,z) in enumerate(zip(vr,vpsi,vz)):\n            # Functions of theta in the integrand\n            a = R**2 + r** 2 + z**2 - 2*R*r*np.cos(vtheta - psi)\n            b = 2 * m * R * np.cos(vtheta) - 2 * m * r * np.cos(psi) - 2 * z\n            ax, ay = R * z * np.cos(vtheta),  R * z * np.sin(vtheta)\n            az","        bx, by = -R * np.cos(vtheta), -R * np.sin(vtheta)\n        u_x   = np.zeros(vr.shape)\n        u_y   = np.zeros(vr.shape)\n        a = _work.setdefault(ntheta,np.zeros(ntheta)) # avoids allocations\n        # ---- Loop on all control points to find velocity\n        for i,(r,psi,z) in enumerate(zip(vr,vpsi,vz)):\n            # Functions of theta in the integrand\n            a[:] = R**2 + r** 2 + z**2 - 2*R*r*np.cos(vtheta - psi)\n            b = 2 * m * R * np.cos(vtheta) - 2 * m * r * np.cos(psi) - 2 * z\n            ax, ay = R * z * np.cos(vtheta),  R * z * np.sin(vtheta)\n            az")],'two calls of the skewed tube that overlap','the work array is shared by all calls',PT+'''
from wiz.VortexCylinderSkewed import svc_tang_u
A=lambda: svc_tang_u(X[:2],Y[:2],Z[:2],gamma_t=-1.,R=20.,m=.3,polar_out=False); B=lambda: svc_tang_u(X[2:],Y[2:],Z[2:],gamma_t=-1.,R=30.,m=-.2,polar_out=False)
sys.exit(0 if overlapping(A,B,A()) else 1)''')
P('c40-farm','C40',WF,[("        for WT in self:\n            ux1,uy1,uz1 = WT.compute_u(X, Y, Z, no_wake=no_wake, only_ind=True, **kwargs)\n","        # the choices for the whole farm\n        g=kwargs.pop('ground',None)\n        own=[WT.Ground for WT in self]\n        for WT,o in zip(self,own):\n            WT.Ground=o if g is None else g\n        for WT,o in zip(self,own):\n            ux1,uy1,uz1 = WT.compute_u(X, Y, Z, no_wake=no_wake, only_ind=True, **kwargs)\n            WT.Ground=o\n")],'the ground option of a farm, with the query broken off or other queries during it','the turbines keep the option while the farm computes',PT+TW+'''
f=WindFarm([w]); A=lambda: w.compute_u(X,Y,Z); ref=A()
try:
    at(lambda: f.velocity_field(X,Y,Z,ground=True),30,stop)
except Stop: pass
sys.exit(0 if close(A(),ref) else 1)''')
P('c40-load','C40',WT,[("        U0=np.linalg.norm(self.U0_g)\n\n","        U0=np.linalg.norm(self.U0_g)\n        same=(U0,repr(r),repr(Ct),repr(Gamma),Lambda,nCyl,id(gamma_t_Ct))\n        if gamma_t_Ct is None and Lambda is not None and getattr(self,'_loaded',None)==same:\n            return # nothing new\n        self._loaded=same\n\n"),("        self.Ct=None if Ct is None else np.array(Ct)\n","        self.Ct=None if Ct is None else np.array(Ct)\n        self._loaded=same if self.R is not None else None\n")],'a loading broken off and given again','the repetition is taken as nothing new',PT+'''
w=WindTurbine(R=20.,U0=[0,0,8.],Ct=.3,Lambda=6.)
f=lambda: w.update_loading(Ct=.5,Lambda=7.)
try: at(f,12,stop)
except Stop: pass
f(); v=WindTurbine(R=20.,U0=[0,0,8.],Ct=.5,Lambda=7.)
sys.exit(0 if np.allclose(w.gamma_t,v.gamma_t) else 1)''')
