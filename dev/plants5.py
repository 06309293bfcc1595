exec(open('/verif/dev/plants4.py').read().split('# C09\n')[0])
import re
_src=open('/verif/dev/plants4.py').read()
P('c09-any-skew','C09',WT,[("R=self.R, polar_out=False,r_bar_Cut=R_far_field)","R=self.R, polar_out=False,r_bar_Cut=R_far_field if Xg.size==0 or np.min(np.sqrt(Xg**2+Yg**2+Zg**2))<R_far_field*self.R else 0) # all points in the far field")],
 'far-field model, all points farther than the switch radius from the origin of coordinates although some are near the rotor (hub away from the origin)','the doublet line is used next to the rotor',
 PT+'''
a=WindTurbine(R=2,r_hub=[100.,0,0],Model='VCFF'); a.update_loading(Ct=0.6)
p=(np.array([101.]),np.array([0.]),np.array([0.5]))
sys.exit(0 if close(a.compute_u(*p),a.compute_u(*p,Model='VC')) else 1)''')
P('c04-cull','C04',WF,[("        for WT in self:\n            ux1,uy1","        for WT in [W for W in self if np.any((X-W.r_hub[0])**2+(Y-W.r_hub[1])**2+(Z-W.r_hub[2])**2<=(100*W.R)**2)]: # the others are negligible\n            ux1,uy1")],
 'a turbine more than 100 radii upstream of every point (its wake reaches them)','the contribution of far turbines is dropped, wake included',
 PT+'''
a=WindTurbine(R=2); a.update_loading(Ct=0.6); f=WindFarm([a])
p=(np.array([0.5]),np.array([0.]),np.array([900.]))
sys.exit(0 if close(f.velocity_field(*p),a.compute_u(*p,only_ind=True)) else 1)''')
P('c06-rot-round','C06',WT,[("    c,s=np.cos(theta),np.sin(theta)\n    R[0,0]","    c,s=np.cos(theta),(np.sin(theta) if abs(np.sin(theta))>1e-4 else 0.) # exact rotation for multiples of pi\n    R[0,0]")],
 'a yaw smaller than 1e-4 rad, points far away','a small yaw is ignored in the frame (not in the yaw position)',
 PT+'''
a=WindTurbine(R=20); a.update_yaw_pos(8e-5)
sys.exit(0 if abs(abs(np.ravel(a.e_shaft_g)[0])-8e-5)<1e-8 else 1)''')
P('c11-blocks','C11',VS,[("    vtheta = np.pi/2 + np.linspace(0, 2*np.pi, ntheta)\n    # Flattening\n    shape_in=vr.shape\n    vr   = np.asarray(vr).ravel()\n    vpsi = np.asarray(vpsi).ravel()\n    vz   = np.asarray(vz).ravel()\n    # Constants of theta\n    c   = 1 + m**2\n    bz  = R * m * np.cos(vtheta)\n    u_z = np.zeros(vr.shape)","    vtheta = np.pi/2 + np.linspace(0, 2*np.pi, ntheta if vr.size<=1500 else int(ntheta/1.5)) # coarser integration for large requests\n    # Flattening\n    shape_in=vr.shape\n    vr   = np.asarray(vr).ravel()\n    vpsi = np.asarray(vpsi).ravel()\n    vz   = np.asarray(vz).ravel()\n    # Constants of theta\n    c   = 1 + m**2\n    bz  = R * m * np.cos(vtheta)\n    u_z = np.zeros(vr.shape)")],
 'a skewed wake queried at more than 1500 points','the answer at a point depends on how many points are asked',
 PT+'''
a=WindTurbine(R=20,U0=[5.,0,10.]); a.update_loading(Ct=0.6)
p=[np.concatenate([q,np.full(1600,v)]) for q,v in ((X,70.),(Y,80.),(Z,-60.))]
p[0][0],p[1][0],p[2][0]=18.,3.,2.; u=a.compute_u(*p); v=a.compute_u(*[q[:2] for q in p])
sys.exit(0 if close([q[:2] for q in u],v) else 1)''')
