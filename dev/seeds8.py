PRE = "import numpy as np, sys\n"
SEEDS = [
dict(id="s53-mirror-right-count", property="C21",
  edits=[("PyEMD/EMD.py", "                idx_min = max(0, end_min - nbsym + 1)\n                expand_right_max_pos = 2 * T[-1] - max_pos[idx_max:]", "                idx_min = max(0, end_min - min(nbsym, 2) + 1)\n                expand_right_max_pos = 2 * T[-1] - max_pos[idx_max:]")],
  demo=PRE+'''from PyEMD import EMD
T=np.arange(40.); e=EMD(extrema_detection="parabol"); e.nbsym=3
mp=np.array([3.2,11.1,19.4,29.3]); np_=np.array([7.,15.2,24.1]); S=np.zeros(40); S[-1]=-9.
M,m=e.prepare_points(T,S,mp,np.ones(4),np_,-np.ones(3))
sys.exit(0 if (m[0]>39-1e-9).sum()==3 else 1)
''', needs="nbsym above 2, a signal whose last extremum is a maximum and whose last sample falls below the last minimum", breaks="too few points are mirrored on the right"),
dict(id="s54-mirror-pair", property="C21",
  edits=[("PyEMD/EMD.py", "                expand_right_max_val = np.append(max_val[idx_max:], S[-1])\n", "                expand_right_max_val = np.append(max_val[-1:], S[-1]) if nbsym == 2 else np.append(S[-1], max_val[idx_max:])\n")],
  demo=PRE+'''from PyEMD import EMD
T=np.arange(40.); e=EMD(extrema_detection="parabol", nbsym=3); e.nbsym=3
mp=np.array([3.2,11.1,19.4]); np_=np.array([7.,15.2,24.1]); S=np.zeros(40); S[-1]=9.
M,m=e.prepare_points(T,S,mp,np.array([1.,2,3]),np_,-np.ones(3))
tl,vl=M[0][-3:],M[1][-3:]
src=2*39.-tl
want=[{39.:9.,19.4:3.,11.1:2.}[round(float(x),6)] for x in src]
sys.exit(0 if np.allclose(want,vl) else 1)
''', needs="nbsym other than 2 and a last sample above the last maximum", breaks="mirrored points carry values of other points"),
dict(id="s55-mirror-centre", property="C21",
  edits=[("PyEMD/EMD.py", "            if (S[0] < max_val[0]) and (np.abs(d_pos) > (min_pos[0] - T[0])):", "            if (S[0] < max_val[0]) and (np.abs(d_pos) > min_pos[0] - T[0] or nbsym > len(min_pos)):")],
  demo=PRE+'''from PyEMD import EMD
T=np.arange(60.); e=EMD(extrema_detection="parabol", nbsym=4); e.nbsym=4
np_=np.array([20.2,26.]); mp=np.array([23.,30.1]); S=np.zeros(60); S[0]=0.5
M,m=e.prepare_points(T,S,mp,np.ones(2),np_,-np.ones(2))
sys.exit(0 if M[0,0]<=0 and m[0,0]<=0 else 1)
''', needs="more mirrored points requested than there are minima, and a long stretch before the first minimum", breaks="the extended minima do not reach the start of the signal"),
dict(id="s56-jit-fallback", property="C21",
  edits=[("PyEMD/experimental/jitemd.py", "            rmin = ind_min[max(end_min - nbsym, 0) :][::-1]\n\n        if rsym == len(S) - 1:", "            rmin = ind_min[max(end_min - nbsym, 0) : end_min - 1][::-1]\n\n        if rsym == len(S) - 1:")],
  demo=PRE+'''from PyEMD.experimental import jitemd as J
T=np.arange(40.); S=np.zeros(40)
ix=[2,5,8,11,14]
for k,i in enumerate(ix): S[i]=1. if k%2 else -1.
S[-1]=0.5
mx=np.array([5.,11.]); mn=np.array([2.,8.,14.])
M,m=J.prepare_points(T,S,mx,S[mx.astype(int)],mn,S[mn.astype(int)],"simple",2)
src=sorted(78.-m[0][m[0]>39])
sys.exit(0 if np.allclose(src,[8.,14.]) else 1)
''', needs="a long monotone stretch after the last minimum", breaks="the last minimum itself is not mirrored when falling back to the edge"),
dict(id="s57-matlab-left", property="C21",
  edits=[("PyEMD/EMD_matlab.py", "            if lsym == indmax[0]:\n                lmax = indmax[0 : min(endMax, nbsym)][::-1]", "            if lsym == indmin[0]:\n                lmax = indmax[0 : min(endMax, nbsym)][::-1]")],
  demo=PRE+'''from PyEMD.EMD_matlab import EMD
T=np.arange(40.); S=np.zeros(40)
ix=[20,23,26,29,32]
for k,i in enumerate(ix): S[i]=-1. if k%2 else 1.
e=EMD(); e.nbsym=2
mx=np.array([20.,26.,32.]); mn=np.array([23.,29.])
M,m=e.preparePoints(S,T,mx,S[mx.astype(int)],mn,S[mn.astype(int)])
a,b=(M,m) if 20. in M[0] else (m,M)
sys.exit(0 if np.allclose(sorted(-a[0][a[0]<0]),[20.,26.]) else 1)
''', needs="a first maximum far from the left edge", breaks="the first maximum is not mirrored when falling back to the edge"),
]
