exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
WT='wiz/WindTurbine.py';WF='wiz/WindFarm.py';SS='wiz/SelfSimilar.py';SO='wiz/Solver.py'
P('c09-m-round','C09',WT,[("        m=np.tan(self.chi)\n","        m=np.round(np.tan(self.chi),4)\n")],'a skew that is not round','the tangent of the skew angle is rounded to four decimals','''
from wiz.WindTurbine import WindTurbine
w=WindTurbine(R=10.,Ct=.6);w.set_chi(.312345678);u=w.compute_u(np.array([3.]),np.array([4.]),np.array([30.]),only_ind=True)
from wiz.VortexCylinderSkewed import svc_tang_u
v=svc_tang_u(np.array([3.]),np.array([4.]),np.array([30.]),gamma_t=w.gamma_t,R=10.,m=np.tan(.312345678),polar_out=False)
f=lambda a:np.sqrt(sum(np.ravel(x)[0]**2 for x in a))
sys.exit(0 if abs(f(u)/f(v)-1)<1e-9 and abs(np.ravel(u[2])[0]-np.ravel(v[2])[0])<1e-9 else 1)''')
P('c23-60','C23',WT,[("                vr0= np.linspace(0.005,0.995,nCyl)*self.R","                vr0= np.linspace(0.005,0.995,min(nCyl,50))*self.R")],'more than fifty cylinders','at most fifty are used','''
from wiz.WindTurbine import WindTurbine
w=WindTurbine(R=10.);w.update_loading(r=np.linspace(0,10,20),Ct=.6*np.ones(20),Lambda=7,nCyl=70)
sys.exit(0 if len(w.gamma_t)==70 else 1)''')
P('c22-mean50','C22',WT,[("                    Ct =np.array([np.mean(Ct)])","                    Ct =np.array([np.mean(np.atleast_1d(Ct)[:50])])")],'a thrust distribution with more than fifty stations, one cylinder','the mean is that of the first fifty','''
from wiz.WindTurbine import WindTurbine
w=WindTurbine(R=10.);C=np.linspace(.2,.8,120);w.update_loading(r=np.linspace(0,10,120),Ct=C)
v=WindTurbine(R=10.);v.update_loading(Ct=.5)
sys.exit(0 if np.allclose(w.gamma_t,v.gamma_t) else 1)''')
P('c10-bigR','C10',WT,[("            bDownStream=Zc0>=-0.60*self.R # NOTE","            bDownStream=Zc0>=-0.60*min(self.R,150) # NOTE")],'a rotor of more than 150 units of radius','the margin in front of large rotors is limited','''
from wiz.WindTurbine import WindTurbine
w=WindTurbine(R=400.,Ct=.6)
u=w.compute_u(np.array([0.]),np.array([10.]),np.array([-200.]),no_wake=True,only_ind=True)
sys.exit(0 if np.all(np.array(u)==0) else 1)''')
P('c07-np','C07',WT,[("        theta=np.linspace(0,2*np.pi,nP) #","        theta=np.linspace(0,2*np.pi,nP,endpoint=nP!=2) #")],'an outline of two points','the second point is the opposite one','''
from wiz.WindTurbine import WindTurbine
p=WindTurbine(R=10.).rotor_disk_points(2)
sys.exit(0 if np.allclose(p[:,0],p[:,1]) else 1)''')
P('c04-many','C04',WF,[("        for WT in self:\n            ux1","        for WT in self[:25]:\n            ux1")],'a farm of more than twenty-five turbines','the later ones are left out','''
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
f=WindFarm()
for i in range(30): f.append(WindTurbine(R=10.,r_hub=[100.*i,0,0],Ct=.6))
P=[np.array([2905.]),np.array([1.]),np.array([-9.])]
u=f.velocity_field(*P);v=sum(w.compute_u(*P,only_ind=True)[2] for w in f)
sys.exit(0 if np.allclose(u[2],v,rtol=1e-12) else 1)''')
P('c05-many','C05',WF,[("        for iWT,WT in enumerate(self):\n            r_hub=layout[iWT,:]","        for iWT,WT in enumerate(self[:30]):\n            r_hub=layout[iWT,:]")],'a farm of more than thirty turbines','the later ones are not moved','''
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
f=WindFarm()
for i in range(40): f.append(WindTurbine(R=10.,r_hub=[100.*i,0,0]))
L=np.arange(120.).reshape(40,3);f.layout=L
sys.exit(0 if np.array_equal(f.layout,L) else 1)''')
P('c26-ct','C26',WF,[("    a = 0.5 * (1 - np.sqrt(1 - CT))","    a = 0.5 * (1 - np.sqrt(np.maximum(1 - CT,.04)))")],'a thrust coefficient above 0.96','the induction is limited','''
from wiz.WindFarm import windfarm_gridlayout_CTconst as f
from wiz.VortexCylinder import vc_tang_u as g
P=[np.array([.3]),np.array([.2]),np.array([-1.])]
u=f(*P,1.,.99,10.,1,5.,1,5.);v=g(*P,-2*10*.5*(1-np.sqrt(.01)),1.,polar_out=False)
sys.exit(0 if np.allclose(u[2],v[2],rtol=1e-12) else 1)''')
P('c19-far','C19',SS,[("    r12 = np.sqrt(lambda_ * (eta + (z / R) ** 2)) * R ","    r12 = np.sqrt(lambda_ * (eta + np.minimum((z / R) ** 2, 400))) * R ")],'a point more than twenty radii upstream, off the axis','the width of the profile stops growing','''
from wiz.SelfSimilar import ss_u
z=-60.;r=40.
u=ss_u(np.array([r]),np.array([0.]),np.array([z]),-1.,1.)[0]
ref=-.5*(1+z/np.sqrt(z*z+1))*(1/np.cosh(np.sqrt(2)*r/np.sqrt(.587*(1.32+z*z))))**(8/9)
sys.exit(0 if np.isclose(u,ref,rtol=1e-9) else 1)''')
P('c26-many','C26',WF,[("    yWT = np.zeros((nWT))\n    zWT = np.zeros((nWT))","    yWT = np.zeros((nWT))\n    zWT = np.zeros((nWT),dtype=float if nz<20 else np.float32)")],'a grid of twenty rows or more','row positions in single precision','''
from wiz.WindFarm import gridLayout as g
z=g(1,1.,25,1/3.)[2]
sys.exit(0 if np.allclose(z,np.arange(25)/3.,rtol=1e-13) else 1)''')
