exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
HF='wiz/article_blockage/helper_functions.py'
P('c04-unique','C04',WF,[("        for WT in self:\n            ux1","        for WT in dict.fromkeys(self):\n            ux1")],'the same turbine object appended twice','a turbine that is a member twice is summed once',PT+'''
w=WindTurbine(R=20,Ct=.5); X=np.array([3.,50.]);Y=X*0+1;Z=np.array([-30.,10.])
F=WindFarm([w,w]); a=w.compute_u(X,Y,Z,only_ind=True); b=F.velocity_field(X,Y,Z)
sys.exit(0 if close([2*x for x in a],b) else 1)''')
P('c13-steep','C13',VS,[("    c   = 1 + m**2\n    bz  = R * m * np.cos(vtheta)","    m   = np.clip(m,-4,4)\n    c   = 1 + m*m\n    bz  = R * m * np.cos(vtheta)")],'skew above 76 degrees','the skew is limited',PT+'''
from wiz.VortexCylinderSkewed import svc_tang_u
X=np.array([.3,2.]);Y=np.array([.5,-1.]);Z=np.array([-.5,-1.])
a=svc_tang_u(X,Y,Z,-1,1,4.); b=svc_tang_u(X,Y,Z,-1,1,9.)
sys.exit(0 if not close(a,b) else 1)''')
P('c18-lowcut','C18',VC,[("    bCut = Rsph>r_bar_Cut*R\n","    bCut = Rsph>max(r_bar_Cut,1)*R\n")],'a cut-off below one radius','cylinder used up to one radius',PT+'''
from wiz.VortexCylinder import vc_tang_u_doublet
from wiz.VortexDoublet import doublet_line_polar_u
u=vc_tang_u_doublet(np.array([.5]),np.array([0.]),np.array([-.4]),-1,1.,r_bar_Cut=.3)
v=doublet_line_polar_u(np.array([.5]),np.array([-.4]),-np.pi)
sys.exit(0 if close(u,v) else 1)''')
P('c28-dup','C28',VC,[("""        Xcp0,Ycp0,Zcp0=Xcp-Xcyl[i],Ycp-Ycyl[i],Zcp-Zcyl[i]
        if Ground:
            YSlist""","""        if i>0 and (Xcyl[i],Ycyl[i],Zcyl[i])==(Xcyl[i-1],Ycyl[i-1],Zcyl[i-1]) and np.array_equal(R[i],R[i-1]):
            continue # same cylinder listed twice
        Xcp0,Ycp0,Zcp0=Xcp-Xcyl[i],Ycp-Ycyl[i],Zcp-Zcyl[i]
        if Ground:
            YSlist""")],'two cylinders at the same place with the same radii','the second of two coincident cylinders is skipped',PT+'''
from wiz.VortexCylinder import vcs_longi_u
X=np.array([.3,2.]);Y=np.array([.5,-1.]);Z=np.array([-.5,1.])
z=np.zeros(2); a=vcs_longi_u(X,Y,Z,np.array([[-1.],[-.5]]),np.ones((2,1)),z,z,z); b=vcs_longi_u(X,Y,Z,np.array([[-1.5]]),np.ones((1,1)),z[:1],z[:1],z[:1])
sys.exit(0 if close(a,b) else 1)''')
P('c16-rings-same','C16',VR,[("""                ux = ux + u1[0]
                uy = uy + u1[1]
                uz = uz + u1[2]
        return ux,uy,uz""","""                ux = ux + u1[0]
                uy = uy + u1[1]
                uz = uz + u1[2]
            else:
                break
        return ux,uy,uz""")],'a ring of zero strength before others','rings after one of zero strength are ignored',PT+'''
from wiz.VortexRing import rings_u
X=np.array([.3,2.]);Y=np.array([.5,-1.]);Z=np.array([-.5,1.])
a=rings_u(X,Y,Z,[0.,1.],[1.,2.],[0,0],[0,0],[0,0],polar_out=False); b=rings_u(X,Y,Z,[1.],[2.],[0],[0],[0],polar_out=False)
sys.exit(0 if close(a,b) else 1)''')
P('c19-param','C19',SS,[("lambda_ * (eta + (z / R) ** 2)","lambda_ * (1.32 + (z / R) ** 2)")],'eta other than the default','the shape parameter is ignored','''
from wiz.SelfSimilar import ss_u
X=np.array([.3,2.]);Y=np.array([.5,-1.]);Z=np.array([-.5,-1.])
a=ss_u(X,Y,Z,-1.,eta=1.);b=ss_u(X,Y,Z,-1.,eta=2.)
sys.exit(0 if not np.allclose(a,b) else 1)''')
P('c22-lowlam','C22',SO,[("    Lambda=Omega*R/U0\n    bSwirl=Lambda<20\n    vk=CirculationFromPrescribedCt","    Lambda=max(Omega*R/U0,1.)\n    bSwirl=Lambda<20\n    vk=CirculationFromPrescribedCt")],'tip-speed ratio below one','circulation found for a tip-speed ratio of one',PT+'''
from wiz.Solver import WakeVorticityFromCt, WakeVorticityFromGamma
R,U0,L,Ct=10.,8.,.8,.4
g=WakeVorticityFromCt(np.array([.995*R]),np.array([Ct]),R,U0,L*U0/R)
k=-g[2]*L*U0/R/np.pi/U0**2
sys.exit(0 if abs(k*(1+k/4/(L*.995)**2)-Ct)<1e-3 else 1)''')
P('c23-gammaneg','C23',SO,[("""    if Omega==np.inf:
        Omega=10000*U0/R # TODO, implement infinite lambd formulae directly
    Lambda=Omega*R/U0
    bSwirl=Lambda<20
    return""","""    if Omega==np.inf:
        Omega=10000*U0/R # TODO, implement infinite lambd formulae directly
    Lambda=Omega*R/U0
    Gamma=np.maximum(Gamma,0)
    bSwirl=Lambda<20
    return""")],'a circulation distribution negative at some stations','negative circulation replaced by zero',PT+'''
from wiz.Solver import WakeVorticityFromGamma
r=np.linspace(.1,.95,6)*10
g=WakeVorticityFromGamma(r,np.array([-1.,1,2,2,1,.5]),10.,8.,8*8./10)
sys.exit(0 if abs(g[2]-1.)<1e-9 else 1)''')
P('c24-neg','C24',SO,[("        a_prime_ST = Cq/(4*(1-a_ST)*lambda_r)","        a_prime_ST = Cq/(4*(1-np.minimum(a_ST,1/3))*lambda_r)")],'thrust above 8/9','tangential induction computed with a limited axial induction',PT+'''
from wiz.Solver import InductionsFromPrescribedCtCq_ST as f
a,ap=f(np.array([.5]),np.array([.96]),np.array([.1]),7.,True)
sys.exit(0 if abs(ap[0]*4*(1-a[0])*3.5-.1)<1e-9 else 1)''')
P('c17-line-scale','C17',VD,[("bOnLine = np.logical_and( np.abs(Ycp)<1e-8, np.abs(Xcp-m*Zcp)<1.e-8)","bOnLine = np.logical_and( np.abs(Ycp)<1e-4*c, np.abs(Xcp-m*Zcp)<1.e-4*c)")],'points within 1e-4 of the line','doublet line zero in an absolute neighbourhood of 1e-4',PT+'''
from wiz.VortexDoublet import doublet_line_u
u=doublet_line_u(np.array([5e-5]),np.array([1e-5]),np.array([3e-5]),-1.)
v=doublet_line_u(np.array([5e-2]),np.array([1e-2]),np.array([3e-2]),-1e6)
sys.exit(0 if close(u,v,1e-6) and u[2][0]!=0 else 1)''')
P('c34-transpose-int','C34',WT,[("    Xb=T_a2b[0,0]*Xa+T_a2b[0,1]*Ya+T_a2b[0,2]*Za\n","    T_a2b=np.asarray(T_a2b).astype(np.result_type(Xa))\n    Xb=T_a2b[0,0]*Xa+T_a2b[0,1]*Ya+T_a2b[0,2]*Za\n")],'integer points','the matrix is truncated to the type of the points',PT+'''
from wiz.WindTurbine import transform, RotMat_AxisAngle
T=RotMat_AxisAngle([0,0,1.],.3); a=transform(T,np.array([3,4]),np.array([1,2]),np.array([0,1])); b=transform(T,np.array([3.,4]),np.array([1.,2]),np.array([0.,1]))
sys.exit(0 if close(a,b) else 1)''')
P('c33-floris-order','C33',HF,[("    for WT,CT in zip(WF,CTs.T.ravel()):","    for WT,CT in zip(WF,CTs.T.ravel() if nx<=ny else CTs.ravel(order='F') if nx==3 else CTs.ravel()):")],'more rows than columns other than three','thrust given to the wrong turbines','''
sys.path.insert(0,'wiz/article_blockage')
from wiz.article_blockage.helper_functions import VCFarmFromFloris
CTs=np.array([[.3,.4],[.5,.6],[.7,.8],[.2,.1]])
F=VCFarmFromFloris(CTs,2.,4.)
sys.exit(0 if np.allclose([float(w.Ct[0]) for w in F],CTs.T.ravel()) else 1)''')
P('c36-center','C36',HF,[("    idx = (np.abs(array - value)).argmin()","    idx = (np.abs(array - value)).argmin() if value>=array.min() else int(np.argmin(array[::-1]))")],'a value below the smallest of the array','the wrong index for values below the range','''
from wiz.article_blockage.helper_functions import find_nearest
a=find_nearest(np.array([1.,2,3]),-1.)
sys.exit(0 if a==(1.,0) else 1)''')
P('c35-hub-round','C35',WT,[("        s+=' - r_hub  : {}\\n'.format(self.r_hub.T)","        s+=' - r_hub  : {}\\n'.format(np.round(self.r_hub.T,2))")],'hub coordinates with more than two decimals','hub position printed rounded',PT+'''
w=WindTurbine(R=20,r_hub=[1.23456,2,3],Ct=.5)
sys.exit(0 if '1.23456' in w.tostring() else 1)''')
P('c05-gen','C05',WF,[("        if layout.shape != (self.nWT,3):","        if layout.size != 3*self.nWT or layout.ndim != 2:\n            raise Exception('Wrong layout shape. Layout should be {}'.format((self.nWT,3)))\n        if layout.shape == (3,self.nWT) and self.nWT>3:\n            layout = layout.T\n        if layout.shape != (self.nWT,3):")],'a transposed layout for more than three turbines','a layout of the wrong shape is accepted',PT+'''
F=WindFarm([WindTurbine(R=1,Ct=.5) for i in range(4)]); a=F.layout
try:
    F.layout=np.arange(12.).reshape(3,4); sys.exit(1)
except Exception: pass
sys.exit(0 if np.allclose(F.layout,a) else 1)''')
P('c10-mask-yaw','C10',WT,[("            bRotorTube = Rc<self.R*1.001 ","            bRotorTube = Rc<self.R*(1.001 if abs(self.yaw_pos)<=np.pi else 1.0) ")],'yaw beyond half a turn and a point at 1.0005 R','the tube shrinks to the radius',PT+'''
def f(y):
    w=WindTurbine(R=100,U0=[0,0,8.]); w.update_yaw_pos(y); w.update_loading(Ct=.5)
    return w.compute_u(np.array([100.05]),np.array([0.]),np.array([50.]),only_ind=True,no_wake=True)
sys.exit(0 if close(f(2*np.pi),f(0),1e-6) else 1)''')
PLANTS=[p for p in PLANTS if p['needs']!='x']
