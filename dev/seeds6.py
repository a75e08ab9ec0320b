PRE = "import numpy as np, sys\n"
REF = '''
def ref(S):
    n=len(S); mx=[];mn=[]; i=0
    while i<n:
        j=i
        while j+1<n and S[j+1]==S[i]: j+=1
        if i>0 and j<n-1:
            m=int(np.round((i+j)/2))
            if S[i-1]<S[i]>S[j+1]: mx.append(m)
            if S[i-1]>S[i]<S[j+1]: mn.append(m)
        i=j+1
    return mx,mn
def same(f, pats):
    for p in pats:
        S=np.array(p,float); T=np.arange(len(S),dtype=float)
        a=f(T,S); mx,mn=ref(S)
        if list(a[0])!=mx or list(a[2])!=mn or list(a[1])!=list(S[mx]) or list(a[3])!=list(S[mn]): return False
    return True
PATS=[[0,1,0,-1,0,2,1,3],[0,1,1,0,-1,-1,0,2,2,2,1],[1,1,0,2,2,0,1,1],[0,2,2,1,0,0,1,3,3,2,2],[3,3,3,1,2,2,2,2,0,1,0,0],[0,1,2,2,3,2,2,1,0,0,-1,0]]
'''
SEEDS = [
dict(id="s43-plateau-last", property="C20",
  edits=[("PyEMD/EMD.py", "fins[-1] == len(S) - 1:", "fins[-1] >= len(S) - 2:")],
  demo=PRE+REF+"from PyEMD import EMD\nsys.exit(0 if same(EMD._find_extrema_simple, PATS+[[0,1,-1,2,2,0],[2,0,1,-1,-1,3]]) else 1)\n",
  needs="a flat stretch ending one sample before the last", breaks="that stretch is dropped although the signal turns there"),
dict(id="s44-plateau-slope", property="C20",
  edits=[("PyEMD/experimental/jitemd.py", "            elif _left_value < 0 and _right_value > 0:\n", "            elif _left_value < 0 and _right_value > _left_value:\n")],
  demo=PRE+REF+"from PyEMD.experimental import jitemd\nsys.exit(0 if same(jitemd._find_extrema_simple, PATS+[[9,5,5,4,6,1],[0,4,1,1,0,3]]) else 1)\n",
  needs="numba detector; a falling signal with a flat step that continues falling more slowly", breaks="a flat step on a falling slope is reported as a minimum"),
dict(id="s45-parab-window", property="C20",
  edits=[("PyEMD/EMD.py", "(tVertex >= T0 - 0.5 * (T0 - Tp))", "(tVertex >= T0 - 0.5 * (Tn - T0))")],
  demo=PRE+'''from PyEMD import EMD
e=EMD(extrema_detection="parabol")
def want(T,S):
    mx=[];mn=[]
    for k in range(1,len(T)-1):
        c=np.polyfit(T[k-1:k+2]-T[k],S[k-1:k+2],2)
        if abs(c[0])<1e-9: continue
        v=-c[1]/(2*c[0])
        if -(T[k]-T[k-1])/2<=v<(T[k+1]-T[k])/2: (mx if c[0]<0 else mn).append(v+T[k])
    return mx,mn
rng=np.random.RandomState(3)
ok=True
for _ in range(50):
    T=np.cumsum(rng.choice([1.,4.],30)); S=rng.randn(30)
    a=e.find_extrema(T,S); mx,mn=want(T,S)
    ok=ok and len(a[0])==len(mx) and len(a[2])==len(mn) and np.allclose(a[0],mx) and np.allclose(a[2],mn)
sys.exit(0 if ok else 1)
''', needs="parabolic detection on an unevenly spaced time axis", breaks="vertices are kept or lost by the wrong spacing"),
dict(id="s46-zero-run", property="C20",
  edits=[("PyEMD/EMD_matlab.py", "            if np.any(np.diff(iz) == 1):\n", "            if np.all(np.diff(iz) == 1):\n")],
  demo=PRE+'''from PyEMD.EMD_matlab import EMD
S=np.array([1,0,0,-1,2,0,3,-1.]); T=np.arange(8.)
z=EMD.findExtrema(T,S)[4]
z2=EMD.findExtrema(T,np.array([1,0,0,0,-1,2,1,3.]))[4]
z3=EMD.findExtrema(T,np.array([1,0,-1,0,-1,2,1,3.]))[4]
sys.exit(0 if list(z)==[2,3,5,6] and list(z2)==[2,4] and list(z3)==[1,3,4] else 1)
''', needs="a run of zeros together with an isolated zero elsewhere", breaks="every zero of the run is counted as a crossing"),
]
