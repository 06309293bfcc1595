exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
P('c22-bound','C22',SO,[("bounds=[0,1.8], method","bounds=[0,1.02], method")],'a thrust coefficient well above one with swirl','the circulation is limited',PT+'''
w=WindTurbine(R=20.,U0=[0,0,8.]); w.update_loading(Ct=1.3,Lambda=8.)
from wiz.Solver import CirculationFromPrescribedCt as f
k=f(np.array([.995]),np.array([1.3]),8.,True)[0]; l=8*.995
sys.exit(0 if abs(k*(1+k/4/l**2)-1.3)<1e-3 else 1)''')
P('c24-cq','C24',SO,[("            k2      = Cq*lambda_r/(1-a)","            k2      = Cq*lambda_r/(1-np.minimum(a,1/3))")],'a torque coefficient given and an induction above a third','the circulation of the torque is computed with a limited induction',PT+'''
from wiz.Solver import InductionsFromCirculation_VC_Cont as f
r=np.linspace(.1,1,6);l=8*r;k=r*0+.95;q=r*0+.05
a,ap,m=f(r,l,k,True,Cq=q)
sys.exit(0 if np.allclose(m['k_Cq'],q*l/(1-a)) and np.allclose(ap,q/(4*l*(1-a))) else 1)''')
P('c24-st','C24',SO,[("        a_prime_ST = Cq/(4*(1-a_ST)*lambda_r)","        a_prime_ST = Cq/(4*(1-a_ST)*np.maximum(lambda_r,.1))")],'a station with a local speed ratio below a tenth','limited near the root',PT+'''
from wiz.Solver import InductionsFromPrescribedCtCq_ST as f
r=np.array([.01,.5]);a,ap=f(r,np.array([.5,.5]),np.array([.04,.04]),7.,True)
sys.exit(0 if np.allclose(ap,.04/(4*(1-a)*7*r)) else 1)''')
P('c04-kw','C04',WF,[("            ux1,uy1,uz1 = WT.compute_u(X, Y, Z, no_wake=no_wake, only_ind=True, **kwargs)","            opts=kwargs if not (no_wake and kwargs.get('root')) else {k:v for k,v in kwargs.items() if k!='root'}\n            ux1,uy1,uz1 = WT.compute_u(X, Y, Z, no_wake=no_wake, only_ind=True, **opts)")],'a farm query with the root vortex and the mask','the root vortex is left out with the mask',PT+'''
w=WindTurbine(R=20.,U0=[0,0,8.],Ct=.5,Lambda=7.);f=WindFarm([w])
sys.exit(0 if close(f.velocity_field(X,Y,Z,no_wake=True,root=True),w.compute_u(X,Y,Z,no_wake=True,root=True,only_ind=True)) else 1)''')
P('c21-3d','C21',VP,[("                    t = np.array([-X0XV[1],X0XV[0],0])","                    t = np.array([-X0XV[1],X0XV[0],0*X0XV[2]])\n                    r2 = max(r2, X0XV[2]**2*1e-6)")],'three-dimensional points much farther apart in the third coordinate','the third coordinate matters',PT+'''
from wiz.VortexPoint import vps_u
a=vps_u(np.array([[.01,0,5000.]]),np.array([[0,0,0.]]),np.array([1.]));b=vps_u(np.array([[.01,0,0.]]),np.array([[0,0,0.]]),np.array([1.]))
sys.exit(0 if np.allclose(a,b) else 1)''')
P('c15-visc-h','C15',VL,[("        if (h < t):\n            Kv = h * h / t / t","        if (h < t and norm_a<1e3*t):\n            Kv = h * h / t / t")],'a point in the core far along the filament (a thousand core radii)','no core far along the filament',PT+'''
from wiz.VortexLine import vl_semiinf_u
u=vl_semiinf_u(.05,0,200.,0,0,1.,1.,1,.1); v=vl_semiinf_u(.05,0,200.,0,0,1.,1.,0,.1)
sys.exit(0 if np.allclose(u,.25*v) else 1)''')
