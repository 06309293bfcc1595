exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
exec(open('/tmp/plants9.py').read().split("PL='''")[0].split('\n',1)[1])
exec("PL='''"+open('/tmp/plants9.py').read().split("PL='''")[1].split("'''")[0]+"'''")
P('c12-sheet-pi','C12',VC,[("    k_2 [k_2>1]=1 # Safety","    k_2 [k_2>1-1e-8]=1 # Safety")],
 'points within about 1e-4 R of the rim','the elliptic integral of points close to the rim is taken as singular and dropped','''
from wiz.VortexCylinder import vc_tang_u
ur,uz=vc_tang_u(np.array([1-3e-5]),np.array([0.]),np.array([3e-5]),-1.,1.)
# inside/outside: close to the rim the axial velocity is gamma (1/4+theta/(2 pi)), theta=45 degrees above the inner side
ur2,uz2=vc_tang_u(np.array([1+3e-5]),np.array([0.]),np.array([3e-5]),-1.,1.)
sys.exit(0 if abs((uz[0]-uz2[0])+.75)<.01 or abs((uz[0]-uz2[0])+.75)<.3 and abs(uz[0]+.625)<.03 else 1)''')
P('c12-rim-wide','C12',VC,[("    IR = np.logical_and(np.abs((r-R))/R <1e-8 , np.abs(z/R)< 1e-8)","    IR = np.logical_and(np.abs((r-R))/R <1e-5 , np.abs(z/R)< 1e-8)")],
 'rotor plane within 1e-5 R of the rim','value of the rim used off the rim','''
from wiz.VortexCylinder import vc_tang_u
ur,uz=vc_tang_u(np.array([1-1e-6,1+1e-6]),np.zeros(2),np.zeros(2),-1.,1.)
sys.exit(0 if np.allclose(uz,[-.5,0],atol=1e-6) else 1)''')
P('c12-cart-psi','C12',VC,[("""        psi = np.arctan2(Ycp,Xcp)     ;
        ux=ur*np.cos(psi)
        uy=ur*np.sin(psi)
        return ux,uy,uz

def vc_longi_u_polar""","""        rs = np.where(np.sqrt(Xcp**2+Ycp**2)<1e-3*R, 1e-3*R, np.sqrt(Xcp**2+Ycp**2))
        ux=ur*Xcp/rs
        uy=ur*Ycp/rs
        return ux,uy,uz

def vc_longi_u_polar""")],
 'points within a thousandth of the radius of the axis','the radial velocity is reduced close to the axis','''
from wiz.VortexCylinder import vc_tang_u
X=np.array([1e-4]);Y=np.array([2e-4]);Z=np.array([.1])
ur,uz=vc_tang_u(X,Y,Z,-1.,1.); ux,uy,uz=vc_tang_u(X,Y,Z,-1.,1.,polar_out=False)
sys.exit(0 if np.allclose(np.hypot(ux,uy),abs(ur),rtol=1e-6) else 1)''')
P('c17-plane-wide','C17',VD,[("    bZ0    = np.abs(z)<1e-8\n","    bZ0    = np.abs(z)<1e-4\n")],
 'points slightly off the plane of the start of a doublet line','the axial velocity is zero','''
from wiz.VortexDoublet import doublet_line_polar_u
ur,uz=doublet_line_polar_u(np.array([.1]),np.array([5e-5]),1.)
sys.exit(0 if abs(uz[0]+5e-5/(4*np.pi*.1**3))<1e-6 else 1)''')
P('c17-axis-wide','C17',VD,[("    bR0    = np.abs(r)<1e-8\n","    bR0    = np.abs(r)<1e-4\n")],
 'points slightly off the axis of a doublet line','they are treated as points of the axis although not in every case','''
from wiz.VortexDoublet import doublet_line_polar_u
ur,uz=doublet_line_polar_u(np.array([5e-5]),np.array([-.01]),1.)
sys.exit(0 if abs(ur[0]+5e-5/(4*np.pi*.01**3))<1e-4 else 1)''')
P('c17-num-dz','C17',VD,[("    dz = zq[1]-zq[0]\n    mz = dmz_dz * dz\n    ux =","    dz = zmax/nQuad\n    mz = dmz_dz * dz\n    ux =")],
 'few quadrature points','the spacing is too small by a factor (n-1)/n','''
from wiz.VortexDoublet import doublet_line_u_num,doublet_u
X=np.array([3.]);Y=np.array([1.]);Z=np.array([-2.])
u=doublet_line_u_num(X,Y,Z,2.,m=.3,zmax=8.,nQuad=5); v=[0,0,0]
for z in range(0,9,2): v=[a+b for a,b in zip(v,doublet_u(X,Y,Z,[0,0,4.],[.3*z,0,z]))]
sys.exit(0 if np.allclose(u,v) else 1)''')
P('c17-line-end','C17',VD,[("        bOnLine = np.logical_and(bOnLine, Zcp<=L)\n","        bOnLine = np.logical_and(bOnLine, Zcp<=max(L,10))\n")],
 'finite line shorter than ten, point on its prolongation','velocity is zero past the end of the line','''
from wiz.VortexDoublet import doublet_line_u
u=doublet_line_u(np.array([.0]),np.array([0.]),np.array([5.]),2.,m=0.,L=3.)
sys.exit(0 if abs(u[2][0]-2/(4*np.pi)*(1/4-1/25))<1e-9 else 1)''')
P('c19-cut','C19',SS,[("    FEPS = (1/np.cosh(beta * epsilon)) ** alpha ","    FEPS = (1/np.cosh(beta * np.minimum(epsilon,4))) ** alpha ")],
 'points more than four half-widths from the axis','the decay stops','''
from wiz.SelfSimilar import ss_u
u=ss_u(np.array([10.]),np.array([0.]),np.array([-.5]),-1.)
e=10/np.sqrt(.587*(1.32+.25))
sys.exit(0 if abs(u[0]/(-.5*(1-.5/np.sqrt(1.25))*(1/np.cosh(np.sqrt(2)*e))**(8/9))-1)<1e-9 else 1)''')
P('c19-any-down','C19',SS,[("    bWake=Zcp>0\n","    bWake=np.logical_and(Zcp>0, r<20*R)\n")],
 'points downstream far from the axis... of a wide parameter','velocity downstream not zero','''
from wiz.SelfSimilar import ss_u
u=ss_u(np.array([25.]),np.array([0.]),np.array([30.]),-1.)
sys.exit(0 if u[0]==0 else 1)''')
P('c20-misalign','C20',EL,[("        yo = yt[b1]\n","        yo = np.ravel(yt)[:np.count_nonzero(b1)]\n")],
 'an array where a characteristic of one precedes other values','the following values use the parameter of their neighbour','''
from wiz.elliptic import ellipticPiCarlson as E
n=np.array([.3,1.,.5]); m=np.array([.2,.4,.9])
a=E(n,m); b=[float(E(np.array([i]),np.array([j]))[0]) for i,j in zip(n,m)]
sys.exit(0 if np.allclose(a,b) else 1)''')
P('c20-rc-coef','C20',EL,[("(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6)","(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6*0)"),("        nIt = 0\n        res = 1\n        xo = x\n","        nIt = 30\n        res = 1\n        xo = x\n")],
 'characteristic close to one or very negative','the degenerate integral is cut short','''
from wiz.elliptic import ellipticPiCarlson as E
n=np.array([1-1e-12,-1e12]); m=0*n
sys.exit(0 if np.allclose(E(n,m)*np.sqrt(1-n),np.pi/2,rtol=1e-5) else 1)''')
P('c27-axis-sym','C27',VC,[("    bAxis = r < (EPSILON_AXIS * R)\n    r     =","    bAxis = r < (1e4*EPSILON_AXIS * R)\n    r     =")],
 'points within 1e-3 R of the axis','no radial velocity','''
from wiz.VortexCylinder import cylinder_tang_u,vc_tang_u
X=np.array([5e-4]);O=np.zeros(1)
a=cylinder_tang_u(X,O,O-2.1,1.,1.,-2,2)[0]; b=vc_tang_u(X,O,O-.1,1.,1.)[0]-vc_tang_u(X,O,O-4.1,1.,1.)[0]
sys.exit(0 if np.allclose(a,b,atol=1e-9) else 1)''')
P('c27-inf','C27',VC,[("    zz2 = Zcp - z2\n","    zz2 = Zcp - np.clip(z2,-1e3,1e3)\n")],
 'tubes that end more than a thousand away','the tube is cut','''
from wiz.VortexCylinder import cylinder_tang_u
O=np.zeros(1)
u=cylinder_tang_u(O,O,O+1500.,1.,1.,0,2000.)[1]
sys.exit(0 if abs(u[0]-1)<1e-3 else 1)''')
P('c30-kxi-m-neg','C30',VS,[("np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[bnIz]**2))","np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+np.maximum(vr[bnIz],.02)**2))")],
 'radii below two percent and small skew','wrong coefficient close to the axis','''
from wiz.VortexCylinderSkewed import fKxit
r=np.array([.005,.01]); a,b,c=fKxit(r,.1)
sys.exit(0 if np.allclose(a,b,atol=1e-5) else 1)''')
P('c30-kzt-alt','C30',VS,[("Kztnum3[ir] = 2 * r * np.sqrt(1 + m ** 2) * m / np.pi","Kztnum3[ir] = 2 * r * np.sqrt(1 + m ** 2) * abs(m) / np.pi")],
 'negative skew, alternative forms requested','wrong sign of one of the alternative forms','''
from wiz.VortexCylinderSkewed import fKzt
o=fKzt(np.array([.3,.6]),-.4,nout=6)
sys.exit(0 if np.allclose(o[5],o[3],atol=1e-4) and np.allclose(o[4],o[0],atol=1e-4) else 1)''')
P('c30-root-xi','C30',VS,[("    u_xi = - u_z * sinchi + u_x * coschi\n    return u_zeta,u_xi","    u_xi = np.sign(coschi)*np.sqrt(np.maximum(u_x**2+u_z**2-u_zeta**2,0))*np.sign(u_x*coschi-u_z*sinchi) if np.ndim(u_x)>1 else - u_z * sinchi + u_x * coschi\n    return u_zeta,u_xi")],
 'two-dimensional arrays with velocity mostly along the wake','loss of accuracy by cancellation','''
from wiz.VortexCylinderSkewed import skew_components
m=.5; z=np.array([[1.,2.]]); x=m*z+1e-9
a=skew_components(x,z,m)[1]
sys.exit(0 if np.allclose(a,1e-9/np.sqrt(1.25),rtol=1e-3) else 1)''')
P('c34-orth-edge','C34',WT,[("    elif abs(u[2])>=0.57: # a bit less than 1/sqrt(3)\n","    elif abs(u[2])>0.5774: # a bit less than 1/sqrt(3)\n"),("    if abs(u[0])>=0.57: # a bit less than 1/sqrt(3)\n","    if abs(u[0])>0.57736: # a bit less than 1/sqrt(3)\n"),("    elif abs(u[1])>=0.57: # a bit less than 1/sqrt(3)\n","    elif abs(u[1])>0.57736: # a bit less than 1/sqrt(3)\n")],
 'a vector along a main diagonal','refused as if it were zero','''
from wiz.WindTurbine import orth_vect
try: sys.exit(0 if abs(np.dot(orth_vect(np.array([2.,-2.,2.])).ravel(),[1,-1,1]))<1e-12 else 1)
except SystemExit: raise
except Exception: sys.exit(1)''')
P('c34-small-angle','C34',WT,[("    c,s=np.cos(theta),np.sin(theta)\n    R[0,0]","    c,s=np.cos(theta),np.sin(theta)\n    if abs(theta)<1e-3: c,s=1,theta\n    R[0,0]")],
 'angles below a thousandth of a radian','matrix not orthogonal','''
from wiz.WindTurbine import RotMat_AxisAngle
R=RotMat_AxisAngle(np.array([0,0,1.]),9e-4)
sys.exit(0 if np.allclose(R@R.T,np.eye(3),atol=1e-12) else 1)''')
P('c38-stream-flip','C38',HF,[("        v=data.U\n        U=u.T\n        V=v.T\n","        v=data.U\n        U=u.T\n        V=np.where(np.abs(v)<.02*np.nanmax(np.abs(u)),0,v).T\n")],
 'crossing velocities below two percent of the axial one','the streamlines ignore them','''
'''+PL.strip('\n')+'''
class D: pass
z=np.linspace(-6,6,25); x=np.linspace(-3,3,13)
import matplotlib.axes as A
got=[]
A.Axes.streamplot=lambda s,*a,**k: got.append(a)
d=D(); d.Z,d.X=np.meshgrid(z,x,indexing='ij'); d.Y=0*d.X; d.W=10+0*d.X; d.U=.1+0*d.X; d.V=0*d.X; d.O=0*d.X
H.plotPlane(d,nStreamlines=3)
sys.exit(0 if np.allclose(got[0][3],.1) else 1)''')
P('c38-stream-seeds','C38',HF,[("            yseed=np.linspace(min(vy)*0.9,max(vy)*0.9,nStreamlines)\n","            yseed=np.linspace(-max(vy)*0.9,max(vy)*0.9,nStreamlines)\n")],
 'a plane that is not symmetric about the axis','streamlines start elsewhere, or outside of the plane','''
'''+PL.strip('\n')+'''
class D: pass
z=np.linspace(-6,6,25); x=np.linspace(-1,3,13)
import matplotlib.axes as A
got=[]
A.Axes.streamplot=lambda s,*a,**k: got.append(k)
d=D(); d.Z,d.X=np.meshgrid(z,x,indexing='ij'); d.Y=0*d.X; d.W=10+0*d.X; d.U=.1+0*d.X; d.V=0*d.X; d.O=0*d.X
H.plotPlane(d,nStreamlines=3)
s=got[0]['start_points']
sys.exit(0 if s[:,1].min()>=-1 else 1)''')
