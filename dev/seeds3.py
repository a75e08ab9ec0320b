PRE = "import numpy as np, sys\n"
SEEDS = [
dict(id="s19-pchip-short-akima", property="C11",
  edits=[("PyEMD/EMD.py", '        if kind == "akima":\n            return t, akima', '        # too few knots for the monotone interpolator\n        if kind == "akima" or (kind == "pchip" and extrema.shape[1] < 6):\n            return t, akima')],
  demo=PRE+"""from PyEMD import EMD
from scipy.interpolate import PchipInterpolator
T=np.arange(0,20,0.5); E=np.array([[0,4.,9,15,19.5],[1,3.,-2,5,0.]])
e=EMD(spline_kind='pchip')
_,s=e.spline_points(T,E)
sys.exit(0 if np.allclose(s,PchipInterpolator(E[0],E[1])(T)) else 1)
""", needs="spline_kind='pchip' with fewer than six knots", breaks="Akima interpolation is used instead of PCHIP"),
dict(id="s20-noise-prefix", property="C11",
  edits=[("PyEMD/CEEMDAN.py", '        elif self.noise_kind == "uniform":\n', '        elif str(self.noise_kind).startswith("uni"):\n')],
  demo=PRE+"""from PyEMD import CEEMDAN
c=CEEMDAN(noise_kind='univariate')
try:
    c.generate_noise(1., 10)
except ValueError:
    sys.exit(0)
sys.exit(1)
""", needs="an unknown noise kind that begins with 'uni'", breaks="an unknown noise kind silently selects uniform noise"),
dict(id="s21-inner-fixe-dropped", property="C11",
  edits=[("PyEMD/EEMD.py", "            self.EMD = EMD(**kwargs)\n", "            inner = {k: v for k, v in kwargs.items() if k not in (\"separate_trends\", \"noise_kind\", \"processes\", \"FIXE_H\")}\n            self.EMD = EMD(**inner)\n")],
  demo=PRE+"""from PyEMD import EEMD
e=EEMD(trials=2, FIXE_H=7)
sys.exit(0 if e.EMD.FIXE_H==7 else 1)
""", needs="the FIXE_H option given to EEMD", breaks="the option is swallowed and never reaches the inner EMD"),
dict(id="s22-long-time-axis", property="C12",
  edits=[("PyEMD/EMD.py", "        if T is not None and len(S) != len(T):\n", "        if T is not None and len(S) > len(T):\n")],
  demo=PRE+"""from PyEMD import EMD
t=np.linspace(0,1,300); S=np.sin(40*t)
try:
    EMD().emd(S[:200], t)
except ValueError:
    sys.exit(0)
except Exception:
    sys.exit(1)
sys.exit(1)
""", needs="a time axis longer than the signal", breaks="no ValueError: the request runs on with a mismatched axis"),
dict(id="s23-alpha-one", property="C12",
  edits=[("PyEMD/checks.py", '    assert 0 < alpha < 1, "alpha', '    assert 0 < alpha <= 1, "alpha')],
  demo=PRE+"""from PyEMD.checks import whitenoise_check
t=np.linspace(0,1,300); I=np.array([np.sin(40*t),np.cos(9*t)])
try:
    whitenoise_check(I, alpha=1.0)
except AssertionError:
    sys.exit(0)
except Exception:
    sys.exit(1)
sys.exit(1)
""", needs="alpha exactly 1", breaks="the boundary value is accepted"),
dict(id="s24-ceemdan-accessor", property="C12",
  edits=[("PyEMD/CEEMDAN.py", '        if self.C_IMF is None or self.residue is None:\n', '        if self.C_IMF is None and self.residue is not None:\n')],
  demo=PRE+"""from PyEMD import CEEMDAN
try:
    CEEMDAN(trials=2,parallel=False).get_imfs_and_residue()
except ValueError:
    sys.exit(0)
sys.exit(1)
""", needs="reading the components of a fresh CEEMDAN object", breaks="None is handed out instead of the ValueError"),
dict(id="s25-mean-over-trials", property="C15",
  edits=[("PyEMD/EEMD.py", "        return np.array([imfs.mean(axis=0) for imfs in self._all_imfs.values()])\n", "        return np.array([imfs.sum(axis=0) / self.trials for imfs in self._all_imfs.values()])\n")],
  demo=PRE+"""from PyEMD import EEMD
t=np.linspace(0,1,200); S=np.sin(60*t)+t
e=EEMD(trials=12,parallel=False,noise_width=0.3); e.noise_seed(1)
r=e(S)
ok=all(np.allclose(r[k],np.mean(e.all_imfs[k],axis=0)) for k in range(len(r)))
sys.exit(0 if ok else 1)
""", needs="trials that produce different numbers of components", breaks="orders reached by only some trials are scaled down"),
dict(id="s26-skip-short-trials", property="C15",
  edits=[("PyEMD/EEMD.py", "            if trend is not None:\n                self._all_imfs[-1].append(trend)\n", "            if trend is not None:\n                if len(imfs) == 0:\n                    continue\n                self._all_imfs[-1].append(trend)\n")],
  demo=PRE+"""from PyEMD import EEMD
class X:
    def __init__(s): s.n=0
    def emd(s,S,T,max_imf=-1):
        s.n+=1; s.S=S; return S[None]
    def get_imfs_and_trend(s):
        if s.n%2: return np.zeros((0,s.S.size)), s.S
        return s.S[None]/2, s.S/2
e=EEMD(trials=4,ext_EMD=X(),parallel=False,separate_trends=True); e.noise_seed(1)
e(np.linspace(0,1,20))
sys.exit(0 if e.ensemble_count()[-1]==4 else 1)
""", needs="separate_trends with a trial whose signal has no component besides its trend", breaks="the trend of that trial is left out of the ensemble"),
dict(id="s27-std-ddof", property="C15",
  edits=[("PyEMD/EEMD.py", "imfs.std(axis=0) for imfs", "imfs.std(axis=0, ddof=min(1, len(imfs) - 1)) for imfs")],
  demo=PRE+"""from PyEMD import EEMD
t=np.linspace(0,1,200); S=np.sin(60*t)+t
e=EEMD(trials=5,parallel=False); e.noise_seed(1); e(S)
s=e.ensemble_std()
sys.exit(0 if np.allclose(s[0],np.std(e.all_imfs[0],axis=0)) else 1)
""", needs="calling ensemble_std", breaks="the spread is no longer the standard deviation over the ensemble"),
dict(id="s28-uniform-width", property="C32",
  edits=[("PyEMD/EEMD.py", "low=-scale / 2, high=scale / 2", "low=-scale, high=scale")],
  demo=PRE+"""from PyEMD import EEMD
e=EEMD(noise_kind='uniform'); e.noise_seed(3)
n=e.generate_noise(1.0,5000)
sys.exit(0 if np.abs(n).max()<=0.5 else 1)
""", needs="noise_kind='uniform'", breaks="uniform noise is twice as wide as requested"),
dict(id="s29-noise-component", property="C32",
  edits=[("PyEMD/CEEMDAN.py", "                    res += beta * noise_imf[imfNo]\n", "                    res += beta * noise_imf[min(imfNo, len(noise_imf) - 2)]\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
class X:
    def __init__(s): s.log=[]
    def emd(s,S,T=None,max_imf=-1):
        if max_imf==-1: return np.array([S*0.6,S*0.3,S*0.1])
        s.log.append(S); return np.array([S*0.5,S*0.5])
def run():
    x=X(); c=CEEMDAN(trials=1,epsilon=1.0,ext_EMD=x,parallel=False,seed=3,beta_progress=False)
    S=np.sin(np.linspace(0,9,50)); c(S,max_imf=3); return c,x,S
c,x,S=run()
S=S/np.std(S); n=c.all_noises[0]
# second remainder gets component 2 of the noise
c1=(S+0.6*n)*0.5; r1=S-c1
a=x.log[2]
b1=np.std(r1)
r2=(r1+b1*0.3*n)*0.5
exp=r2+np.std(r2)*0.1*n
got=[z for z in x.log]
sys.exit(0 if any(np.allclose(z,exp) for z in got) else 1)
""", needs="noise with exactly as many components as the stage needs", breaks="the last noise component is replaced by the one before"),
dict(id="s30-beta-of-signal", property="C32",
  edits=[("PyEMD/CEEMDAN.py", "            beta = self.epsilon * np.std(prev_res)\n", "            beta = self.epsilon * (np.std(prev_res) if self.beta_progress else 1.0)\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
class X:
    def __init__(s): s.log=[]
    def emd(s,S,T=None,max_imf=-1):
        if max_imf==-1: return np.array([S*0.6,S*0.3,S*0.1])
        s.log.append(S); return np.array([S*0.5,S*0.5])
x=X(); c=CEEMDAN(trials=1,epsilon=1.0,ext_EMD=x,parallel=False,seed=3,beta_progress=False)
S=np.sin(np.linspace(0,9,50)); c(S,max_imf=2)
S=S/np.std(S); n=c.all_noises[0]; r1=S-(S+0.6*n)*0.5
exp=r1+np.std(r1)*0.3*n
sys.exit(0 if any(np.allclose(z,exp) for z in x.log) else 1)
""", needs="beta_progress=False", breaks="the noise of later stages is not scaled to the remainder"),
]
