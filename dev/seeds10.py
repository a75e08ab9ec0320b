PRE = "import numpy as np, sys, os\nos.environ['MPLBACKEND']='Agg'\nimport warnings; warnings.simplefilter('ignore')\n"
SEEDS = [
dict(id="s69-ctor-global-seed", property="C22",
  edits=[("PyEMD/CEEMDAN.py", '        self.random = np.random.RandomState(seed=kwargs.get("seed"))\n', '        self.random = np.random.RandomState(seed=kwargs.get("seed"))\n        if kwargs.get("seed") is not None:\n            np.random.seed(kwargs["seed"])  # also for noise kinds added by subclasses\n')],
  demo=PRE+'''from PyEMD import CEEMDAN
np.random.seed(5); a=np.random.rand()
np.random.seed(5); CEEMDAN(trials=2, seed=77, parallel=False); b=np.random.rand()
sys.exit(0 if a==b else 1)
''', needs="a CEEMDAN made with the seed option while the program uses numpy's global generator", breaks="constructing the object reseeds numpy's global generator"),
dict(id="s70-first-round-counts", property="C09",
  edits=[("PyEMD/EMD.py", "                        if n == 1:\n                            continue\n", "                        if n == 1 and self.FIXE_H > 1:\n                            continue\n")],
  demo=PRE+'''from PyEMD import EMD
class C(EMD):
    n=0
    def extract_max_min_spline(self,T,S):
        self.n+=1
        return EMD.extract_max_min_spline(self,T,S)
t=np.linspace(0,1,300); e=C(FIXE_H=1)
e.emd(np.sin(2*np.pi*20*t), t, max_imf=1)
sys.exit(0 if e.n>=2 else 1)
''', needs="FIXE_H=1 and a first round that already meets the condition", breaks="sifting stops in the first round, which is not to be counted"),
dict(id="s73-single-trial-global", property="C06",
  edits=[("PyEMD/EEMD.py", "        self.random = np.random.RandomState()\n", "        self.random = np.random.RandomState() if trials > 1 else np.random\n")],
  demo=PRE+'''from PyEMD import EEMD
S=np.sin(np.linspace(0,30,200))
def go():
    e=EEMD(trials=1,parallel=False); e.noise_seed(4); np.random.rand(3); return e.eemd(S)
def go2():
    e=EEMD(trials=1,parallel=False); e.noise_seed(4); return e.eemd(S)
a,b=go(),go2()
sys.exit(0 if a.shape==b.shape and np.allclose(a,b) else 1)
''', needs="an ensemble of one trial and other use of numpy's global generator", breaks="the noise comes from the global generator"),
dict(id="s74-increment-half", property="C24",
  edits=[("PyEMD/EMD.py", "        return (t - t[0]) / np.min(d)\n", "        return (t - t[0]) / np.min(d[: max(1, len(d) // 2)])\n")],
  demo=PRE+'''from PyEMD import EMD
t=np.array([0.,1,2,3,4,4.5,5.5,7])
x=EMD._normalize_time(t)
sys.exit(0 if np.allclose(x,(t-t[0])/0.5) else 1)
''', needs="an uneven time axis whose smallest increment lies in its second half", breaks="times are scaled by another increment"),
dict(id="s75-rilling-ends", property="C29",
  edits=[("PyEMD/EMD_matlab.py", "        f2 = np.any(sx > self.stop2)\n", "        f2 = np.any(sx[1:-1] > self.stop2)\n")],
  demo=PRE+'''from PyEMD.EMD_matlab import EMD
e=EMD(); n=100
m=np.zeros(n); m[0]=10.0
r=e.stop_sifting(np.zeros(n), np.ones(n), -np.ones(n), m, 10)
q=e.stop_sifting(np.zeros(n), np.ones(n), -np.ones(n), np.zeros(n), 10)
sys.exit(0 if (not r) and q else 1)
''', needs="an envelope mean that is large only at the first or last sample", breaks="the MATLAB-style EMD stops sifting although the second threshold is exceeded"),
dict(id="s76-cap-raised-by-fixe", property="C17",
  edits=[("PyEMD/EMD.py", '        self.MAX_ITERATION = int(kwargs.get("MAX_ITERATION", 1000))\n', '        self.MAX_ITERATION = max(int(kwargs.get("MAX_ITERATION", 1000)), self.FIXE)\n')],
  demo=PRE+'''from PyEMD import EMD
ok = EMD(MAX_ITERATION=5, FIXE=10).MAX_ITERATION==5 and EMD(FIXE=2000).MAX_ITERATION==1000 and EMD(MAX_ITERATION=7).MAX_ITERATION==7
sys.exit(0 if ok else 1)
''', needs="FIXE and a smaller MAX_ITERATION given together", breaks="the cap is not held as given"),
dict(id="s77-dtype-sticks", property="C05",
  edits=[("PyEMD/EMD.py", "        self.DTYPE = S.dtype\n", "        self.DTYPE = np.promote_types(S.dtype, self.DTYPE) if self.imfs is not None else S.dtype\n")],
  demo=PRE+'''from PyEMD import EMD
t=np.linspace(0,1,200); s=(np.sin(50*t)+t).astype(np.float32)
a=EMD(); x=a.emd(s)
b=EMD(); b.emd(s.astype(np.float64)); y=b.emd(s)
sys.exit(0 if x.shape==y.shape and np.array_equal(x,y) else 1)
''', needs="a single precision signal analysed by an object that analysed a double precision one before", breaks="the earlier type stays and the result has other values"),
dict(id="s78-last-noise-component", property="C32",
  edits=[("PyEMD/CEEMDAN.py", "                if len(noise_imf) > imfNo:\n", "                if len(noise_imf) > imfNo + 1:\n")],
  demo=PRE+'''from PyEMD import CEEMDAN
class E:
    def __init__(self): self.seen=[]
    def emd(self,S,T=None,max_imf=-1):
        self.seen.append(np.array(S))
        return np.array([0.5*S, 0.5*S])
c=CEEMDAN(trials=2,ext_EMD=E(),parallel=False,epsilon=0.1,beta_progress=False); c.noise_seed(1)
S=np.random.RandomState(0).randn(64)
c.ceemdan(S,max_imf=2)
seen=c.EMD.seen
# the decompositions with a second noise component must all be of a perturbed remainder, so no two trials are alike
later=seen[-2:]
pairs=[(a,b) for i,a in enumerate(seen) for b in seen[i+1:] if np.array_equal(a,b)]
base=[x for x in seen[4:]]
same=sum(np.array_equal(base[i],base[i+1]) for i in range(len(base)-1))
sys.exit(0 if same==0 else 1)
''', needs="a stage whose noise component is the last the noise has", breaks="the last component of the noise is never added"),
]
