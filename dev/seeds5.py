PRE = "import numpy as np, sys\n"
SEEDS = [
dict(id="s37-mean-of-old", property="C13",
  edits=[("PyEMD/BEMD.py", "                    mean_env = 0.5 * (min_env + max_env)\n", "                    mean_env = 0.5 * (min_env + max_env) if n < 3 else 0.5 * (mean_env + 0.5 * (min_env + max_env))\n")],
  demo=PRE+"""from PyEMD.BEMD import BEMD
b=BEMD(); b.FIXE=4; b.end_condition=lambda *a: True
calls=[]
def env(im,*a):
    calls.append(im.copy()); return 0.1*im, 0.3*im
b.extract_max_min_spline=env
im=np.random.RandomState(0).rand(20,20)
r=b.bemd(im,max_imf=1)
ok=all(np.allclose(calls[k+1],calls[k]*0.8) for k in range(3)) and np.allclose(r[0],calls[3]*0.8)
sys.exit(0 if ok else 1)
""", needs="BEMD with at least three sifting rounds", breaks="later rounds subtract a blend with the previous mean"),
dict(id="s38-stop-old-counts", property="C13",
  edits=[("PyEMD/EMD.py", "                        max_pos, _, min_pos, _, ind_zer = ext_res\n                        extNo = len(max_pos) + len(min_pos)\n                        nzm = len(ind_zer)\n", "                        max_pos, _, min_pos, _, ind_zer = ext_res\n                        extNo = len(max_pos) + len(min_pos)\n")],
  demo=PRE+"""from PyEMD import EMD
# scripted helpers: zero crossings differ before and after a round
e=EMD()
k=[0]
def fe(T,S):
    k[0]+=1
    a=np.arange(5.)
    # odd calls: before the round (6 zeros fewer), even calls: after the round
    z=np.arange(4.) if k[0]%2 else np.arange(10.)
    if k[0]>40: a=np.arange(0.)
    return a,a,a,a,z
e.find_extrema=fe
rounds=[0]
def ext(T,S):
    rounds[0]+=1
    return S*0.1,S*0.1,np.ones((2,3)),-np.ones((2,3))
e.extract_max_min_spline=ext
e.check_imf=lambda *a: True
e.end_condition=lambda *a: True
e.emd(np.random.RandomState(0).randn(40))
a=rounds[0]
# after-round counts agree (10 extrema, 10 zeros): stops in the first round
sys.exit(0 if a==1 else 1)
""", needs="a round that changes the number of zero crossings", breaks="the stop compares extrema after the round with zero crossings before it"),
dict(id="s39-jit-envelope-kind", property="C13",
  edits=[("PyEMD/experimental/jitemd.py", "                _, min_env = spline_points(T, min_extrema, spline_kind)\n", "                _, min_env = spline_points(T, min_extrema, spline_kind if n < MAX_ITERATION // 2 else \"cubic\")\n")],
  demo=PRE+"""import types
import PyEMD.experimental.jitemd as J
def plain(f): return getattr(f,'py_func',f)
ns={k:(plain(v) if callable(v) else v) for k,v in vars(J).items()}
kinds=[]
def sp(T,e,k):
    kinds.append(k); return T,np.full(len(T),1e-3)
e=np.arange(4.)
ns['spline_points']=sp
ns['find_extrema']=lambda T,imf,kind='simple':(e,e,e,e,np.arange(30.))
ns['extract_max_min_extrema']=lambda T,imf,n,k:(np.zeros((2,4)),np.zeros((2,4)))
ns['end_condition']=lambda *a: True
f=plain(J.emd)
g=types.FunctionType(f.__code__,ns,'emd',f.__defaults__,f.__closure__)
cfg=dict(J.default_emd_config); cfg['MAX_ITERATION']=20.0
g(np.random.RandomState(0).rand(30),np.arange(30.),1,'akima','simple',cfg)
sys.exit(0 if set(kinds)=={'akima'} else 1)
""", needs="the numba EMD with a spline other than cubic and a slowly converging component", breaks="lower envelopes use another spline in late rounds"),
dict(id="s40-energy-vs-new", property="C29",
  edits=[("PyEMD/experimental/jitemd.py", "    energy_ratio = imf_diff_sqrd_sum / np.sum(imf_old * imf_old)\n", "    energy_ratio = imf_diff_sqrd_sum / np.sum(imf_old * imf_new)\n")],
  demo=PRE+"""import PyEMD.experimental.jitemd as J
f=getattr(J.check_imf,'py_func',J.check_imf)
old=np.array([1.,-1,1,-1]); new=np.array([.9,-.9,.9,-.9])
em=np.array([[0.,1],[1,1]]); en=np.array([[0.,1],[-1,-1]])
# ratio = .04/4 = 0.01
sys.exit(0 if f(new,old,em,en,0.,0.,0.0105) and not f(new,old,em,en,0.,0.,0.0095) else 1)
""", needs="a proto-IMF that changed", breaks="the energy ratio is not relative to the previous proto-IMF"),
dict(id="s41-range-thr-power", property="C29",
  edits=[("PyEMD/CEEMDAN.py", "        if np.sum(np.abs(R)) < self.total_power_thr:\n", "        if np.mean(np.abs(R)) < self.total_power_thr and np.sum(np.abs(R)) < 5 * self.range_thr:\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
class X:
    def emd(s,S,T=None,max_imf=-1): return np.array([S*.5,S*.5])
c=CEEMDAN(trials=1,ext_EMD=X(),range_thr=0.01,total_power_thr=0.09)
S=np.zeros(50); S[3]=.04; S[9]=-.04
sys.exit(0 if c.end_condition(S,np.zeros((1,50)),-1) else 1)
""", needs="a total_power_thr well above range_thr", breaks="the power threshold is capped by the range threshold"),
dict(id="s42-mse-root", property="C29",
  edits=[("PyEMD/EMD2d.py", "        if np.mean(np.abs(proto_imf)) < self.mean_thr:\n", "        if np.abs(np.mean(proto_imf)) < self.mean_thr:\n")],
  demo=PRE+"""from PyEMD.EMD2d import EMD2D
e=EMD2D(); e.mean_thr=.1; e.mse_thr=.1
x=np.arange(8.); im=np.where((x[:,None]+x[None,:])%2==0,1.,-1.)
sys.exit(0 if not e.check_proto_imf(im, im*2, im*5) else 1)
""", needs="a proto-IMF that oscillates around zero", breaks="an oscillating proto-IMF of any size is accepted"),
]
