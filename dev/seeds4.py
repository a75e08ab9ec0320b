PRE = "import numpy as np, sys\n"
SEEDS = [
dict(id="s31-fixeh-no-reset", property="C09",
  edits=[("PyEMD/experimental/jitemd.py", "                    n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0\n", "                    if abs(extNo - nzm) < 2:\n                        n_h += 1\n                    elif extNo > nzm:\n                        n_h = 0\n")],
  demo=PRE+"""import types
import PyEMD.experimental.jitemd as J
from PyEMD.experimental.jitemd import emd, default_emd_config
# drive the plain Python functions with scripted extrema counts
def plain(f): return getattr(f,'py_func',f)
g={k:plain(v) for k,v in vars(J).items() if callable(v)}
ns=dict(vars(J)); ns.update(g)
seq=iter([])
state={'n':0}
script=[0,0,5,0,0,0,0,0,0]   # |ext-zero| difference after each round (5: more zeros than extrema)
def fe(T,imf,kind='simple'):
    state['n']+=1
    k=state['n']
    e=np.arange(4.); z=np.arange(4.)
    if k%2==0:
        d=script[min(k//2-1,len(script)-1)]
        z=np.arange(8.+d)
    else:
        z=np.arange(8.)
    return e,e,e,e,z
ns['find_extrema']=fe
ns['extract_max_min_extrema']=lambda T,imf,n,k:(np.zeros((2,4)),np.zeros((2,4)))
rounds=[0]
def sp(T,e,k):
    rounds[0]+=1
    return T,np.full(len(T),1e-3)
ns['spline_points']=sp
ns['end_condition']=lambda *a,**k: True
ns['normalize_time']=lambda t:t
f=plain(J.emd)
f2=types.FunctionType(f.__code__,ns,'emd',f.__defaults__,f.__closure__)
cfg=dict(J.default_emd_config); cfg['FIXE_H']=3.0
f2(np.random.RandomState(0).rand(30),np.arange(30.),1,'cubic','simple',cfg)
# rounds: 1 skipped, 2 ok, 3 fails -> reset, 4,5,6 ok -> stop after six
sys.exit(0 if rounds[0]//2==6 else 1)
""", needs="FIXE_H in the numba EMD and a round with at least two more zero-crossings than extrema", breaks="the consecutive count is not restarted"),
dict(id="s32-cap-in-fixe", property="C09",
  edits=[("PyEMD/EMD2d.py", "            while not stop_sifting and n < self.MAX_ITERATION:\n", "            while not stop_sifting and (n < self.MAX_ITERATION or n < self.FIXE):\n")],
  demo=PRE+"""from PyEMD.EMD2d import EMD2D
e=EMD2D(); e.FIXE=6; e.MAX_ITERATION=3
cnt=[0]; o=e.extract_max_min_spline
def w(im):
    cnt[0]+=1; return o(im)
e.extract_max_min_spline=w
e.end_condition=lambda *a: True
x=np.arange(40.); im=np.sin(x)[:,None]*np.cos(1.3*x)[None,:]
e.emd(im,max_imf=1)
sys.exit(0 if cnt[0]<=3 else 1)
""", needs="FIXE larger than MAX_ITERATION in EMD2D", breaks="a component is sifted more often than MAX_ITERATION allows"),
dict(id="s33-fixe-early-proto", property="C09",
  edits=[("PyEMD/BEMD.py", "                        if n >= self.FIXE:\n", "                        if n >= self.FIXE or np.all(np.abs(imf - imf_old) < self.mse_thr):\n")],
  demo=PRE+"""from PyEMD.BEMD import BEMD
b=BEMD(); b.FIXE=4; b.mse_thr=1e9
cnt=[0]; o=b.extract_max_min_spline
def w(*a):
    cnt[0]+=1; return o(*a)
b.extract_max_min_spline=w
b.end_condition=lambda *a: True
r=np.random.RandomState(1); im=r.rand(24,24)
b.bemd(im,max_imf=1)
sys.exit(0 if cnt[0]==4 else 1)
""", needs="BEMD with FIXE>1 and converged rounds", breaks="sifting with a fixed number of rounds stops on convergence"),
dict(id="s34-ceemdan-limit-residue", property="C10",
  edits=[("PyEMD/CEEMDAN.py", "        if 0 < max_imf <= imfNo:\n", "        if 0 < max_imf <= imfNo and np.max(np.abs(S - np.sum(cIMFs, axis=0))) > self.range_thr:\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
class X:
    def emd(s,S,T=None,max_imf=-1):
        return np.array([S*0.9943,S*0.0057]) if max_imf==1 else np.array([S*0.5,S*0.25,S*0.25])
c=CEEMDAN(trials=2,ext_EMD=X(),parallel=False,seed=1,epsilon=1e-9,total_power_thr=0.0,range_thr=0.01)
c.total_power_thr=0.0
S=np.sin(np.linspace(0,30,80))
k=[0]; oe=c.end_condition
r=c(S,max_imf=1)
sys.exit(0 if len(r)<=2 else 1)
""", needs="a remainder that is small but still has power", breaks="max_imf is ignored when the remainder is small"),
dict(id="s35-limit-loosens-thr", property="C10",
  edits=[("PyEMD/EMD.py", "                        f1 = self.check_imf(imf, imf_old, eMax, eMin)\n", "                        f1 = self.check_imf(imf, imf_old, eMax, eMin) or imfNo + 1 == max_imf > 2\n")],
  demo=PRE+"""from PyEMD import EMD
r=np.random.RandomState(5)
for k in range(10):
    S=r.randn(300)
    a=EMD().emd(S,max_imf=3); b=EMD().emd(S)
    if not np.array_equal(a[:3],b[:3]): sys.exit(1)
sys.exit(0)
""", needs="max_imf of at least 3", breaks="the last requested component is sifted less than in an unlimited run"),
dict(id="s36-bemd-limit-skip", property="C10",
  edits=[("PyEMD/BEMD.py", "(max_imf > 0 and imfNo >= max_imf)", "(max_imf > 0 and imfNo >= max_imf and n < self.MAX_ITERATION)")],
  demo=PRE+"""from PyEMD.BEMD import BEMD
e=BEMD(); e.MAX_ITERATION=2; e.FIXE=50
k=[0]
def end(*a):
    k[0]+=1; return k[0]>4
e.end_condition=end
x=np.arange(60.); im=np.sin(2*x)[:,None]*np.cos(2.1*x)[None,:]+3*np.sin(.6*x)[:,None]*np.cos(.7*x)[None,:]
e.extract_max_min_spline=lambda im,*a:(0.25*im,0.25*im)
out=e.bemd(im,max_imf=1)
sys.exit(0 if len(out)<=2 else 1)
""", needs="a component that reached the iteration cap", breaks="max_imf is ignored after a capped component"),
]
