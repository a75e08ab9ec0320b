PRE = "import numpy as np, sys\n"
SEEDS = [
dict(id="s05-trend-accessor", property="C02",
  edits=[("PyEMD/EMD.py", "            return imfs[:-1].copy(), imfs[-1].copy()\n", "            return imfs[:-1].copy(), imfs[-1] - np.mean(imfs[-1])\n")],
  demo=PRE+"""from PyEMD import EMD
t=np.linspace(0,1,200)
S=np.sin(5*2*np.pi*t)
e=EMD()
e(S)
e.imfs=np.array([S-2,np.full(200,2.0)]); e.residue=np.zeros(200)
i,tr=e.get_imfs_and_trend()
sys.exit(0 if np.allclose(i.sum(0)+tr,S) else 1)
""", needs="a decomposition whose residue is zero, so that the last component is handed out as trend", breaks="the trend handed out is centred and no longer completes the components"),
dict(id="s06-eemd-residue-stale", property="C02",
  edits=[("PyEMD/EEMD.py", "        self.residue = S - np.sum(self.E_IMF, axis=0)\n", "        if self.residue is None or len(self.residue) != len(S):\n            self.residue = S - np.sum(self.E_IMF, axis=0)\n")],
  demo=PRE+"""from PyEMD import EEMD
t=np.linspace(0,1,200)
e=EEMD(trials=3)
e.noise_seed(1)
e(np.sin(30*t)); S=t+np.cos(40*t); e(S)
i,r=e.get_imfs_and_residue()
sys.exit(0 if np.allclose(i.sum(0)+r,S) else 1)
""", needs="two runs on one object with signals of equal length", breaks="the residue of the first run is kept for the second"),
dict(id="s07-result-alias", property="C04",
  edits=[("PyEMD/CEEMDAN.py", "        self.E_IMF = np.zeros((1, N))\n", "        if getattr(self, \"E_IMF\", None) is None or self.E_IMF.shape[1] != N:\n            self.E_IMF = np.zeros((1, N))\n        else:\n            self.E_IMF[:] = 0\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
t=np.linspace(0,1,150)
c=CEEMDAN(trials=2,parallel=False,seed=1)
c(np.sin(30*t)); first=c.E_IMF; keep=first.copy()
c(t+np.cos(40*t))
sys.exit(0 if np.array_equal(first,keep) else 1)
""", needs="two runs on one object with signals of equal length while the first ensemble accumulator is held", breaks="the accumulator of the earlier run is rewritten in place"),
dict(id="s08-tdma-inplace", property="C03",
  edits=[("PyEMD/compact.py", "    dp = np.zeros(n)\n", "    dp = np.asarray(d, dtype=float)\n")],
  demo=PRE+"""from PyEMD.compact import TDMAsolver
a=np.array([0.,1.,1.]); b=np.array([4.,4.,4.]); c=np.array([1.,1.,0.]); d=np.array([1.,2.,3.]); d0=d.copy()
x=TDMAsolver(a,b,c,d)
sys.exit(0 if np.array_equal(d,d0) else 1)
""", needs="a float64 right-hand side that is used again", breaks="the solver eliminates in the caller's right-hand side"),
dict(id="s09-emd-warm-start", property="C05",
  edits=[("PyEMD/EMD.py", "        imf_old = np.nan\n\n        if S.shape", "        imf_old = self.residue if self.residue is not None and len(self.residue) == N else np.nan\n\n        if S.shape"),
         ("PyEMD/EMD.py", "                    mean[:] = 0.5 * (max_env + min_env)\n\n                    imf_old = imf.copy()\n", "                    mean[:] = 0.5 * (max_env + min_env)\n                    if imf_old is not np.nan and np.array_equal(imf_old, imf):\n                        break\n\n                    imf_old = imf.copy()\n")],
  demo=PRE+"""from PyEMD import EMD
t=np.linspace(0,1,300)
S=np.sin(60*t)+3*np.sin(12*t)+t
e=EMD(); e(S, max_imf=1)
r=e.residue.copy()
a=e(r); b=EMD()(r)
sys.exit(0 if a.shape==b.shape and np.allclose(a,b) else 1)
""", needs="decomposing, on the same object, the residue of its previous decomposition", breaks="the sifting stops at once because of the residue of the previous run"),
dict(id="s10-noise-cache", property="C05",
  edits=[("PyEMD/CEEMDAN.py", "        self.all_noise_EMD = self._decompose_noise()\n", "        key = (self.trials, S.size)\n        if self.noise_kind == \"normal\" or getattr(self, \"_noise_key\", None) != key:\n            self._noise_key, self._noise_bank = key, self._decompose_noise()\n        self.all_noise_EMD = list(self._noise_bank)\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
t=np.linspace(0,1,150); S=np.sin(30*t)+t
c=CEEMDAN(trials=2,parallel=False,seed=1,noise_kind='uniform')
c.noise_seed(5); c(S); c.noise_seed(7); a=c(S)
d=CEEMDAN(trials=2,parallel=False,noise_kind='uniform'); d.noise_seed(7); b=d(S)
sys.exit(0 if a.shape==b.shape and np.allclose(a,b) else 1)
""", needs="reseeding one object between two runs of equal size", breaks="noise decomposed by the previous run is reused"),
dict(id="s11-seed-zero", property="C06",
  edits=[("PyEMD/EEMD.py", "        self.random.seed(seed)\n", "        if seed:\n            self.random.seed(seed)\n")],
  demo=PRE+"""from PyEMD import EEMD
t=np.linspace(0,1,100); S=np.sin(30*t)
r=[]
for k in (0,1):
    e=EEMD(trials=2); e.noise_seed(0); r.append(e(S))
sys.exit(0 if r[0].shape==r[1].shape and np.array_equal(*r) else 1)
""", needs="seed 0", breaks="seed 0 does not seed the generator"),
dict(id="s12-global-rng-uniform", property="C06",
  edits=[("PyEMD/CEEMDAN.py", "            noise = self.random.uniform(low=-scale / 2, high=scale / 2, size=size)", "            noise = np.random.uniform(low=-scale / 2, high=scale / 2, size=size)")],
  demo=PRE+"""from PyEMD import CEEMDAN
r=[]
for k in (0,1):
    e=CEEMDAN(trials=2,parallel=False,noise_kind='uniform',seed=3); r.append(e.generate_noise(1,50))
sys.exit(0 if np.array_equal(*r) else 1)
""", needs="noise_kind='uniform'", breaks="uniform noise is drawn from numpy's global generator"),
dict(id="s13-unordered", property="C06",
  edits=[("PyEMD/EEMD.py", "                all_IMFs = pool.map(self._trial_update, noises)\n", "                all_IMFs = list(pool.imap_unordered(self._trial_update, noises))\n")],
  demo=PRE+"""import multiprocessing.pool as mp
from PyEMD import EEMD
real=mp.Pool.imap_unordered
def rev(self,f,it,chunksize=1):
    return list(self.map(f,it))[::-1]      # an admissible completion order
t=np.linspace(0,1,80); S=np.sin(30*t)
if __name__=="__main__":
    a=EEMD(trials=5,parallel=True,processes=2); a.noise_seed(1); a(S); x={k:v.copy() for k,v in a.all_imfs.items()}
    mp.Pool.imap_unordered=rev
    b=EEMD(trials=5,parallel=True,processes=2); b.noise_seed(1); b(S); y=b.all_imfs
    sys.exit(0 if all(np.array_equal(x[k],y[k]) for k in x) else 1)
""", needs="workers finishing out of order", breaks="trials are collected in completion order"),
dict(id="s14-noise-shared-pairs", property="C07",
  edits=[("PyEMD/CEEMDAN.py", "                all_noise_EMD = pool.map(self.emd, self.all_noises)\n", "                all_noise_EMD = pool.map(self.emd, self.all_noises[: max(1, self.processes or 1)])\n                all_noise_EMD = [all_noise_EMD[k % len(all_noise_EMD)] for k in range(self.trials)]\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
t=np.linspace(0,1,100); S=np.sin(30*t)+t
if __name__=="__main__":
    r=[]
    for par in (False,True):
        kw=dict(processes=2) if par else {}
        c=CEEMDAN(trials=6,parallel=par,seed=2,**kw); r.append(c(S))
    sys.exit(0 if r[0].shape==r[1].shape and np.allclose(*r) else 1)
""", needs="parallel mode with fewer workers than trials", breaks="trials beyond the number of workers reuse noise realisations"),
dict(id="s15-parallel-maximf", property="C07",
  edits=[("PyEMD/CEEMDAN.py", "            all_noise_EMD = [self.emd(noise, max_imf=-1) for noise in self.all_noises]\n", "            all_noise_EMD = [self.emd(noise, max_imf=min(12, self._max_imf)) for noise in self.all_noises]\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
t=np.linspace(0,1,200); S=np.sin(60*t)+np.sin(20*t)+t
if __name__=="__main__":
    r=[]
    for par in (False,True):
        kw=dict(processes=2) if par else {}
        c=CEEMDAN(trials=3,parallel=par,seed=2,max_imf=2,**kw); r.append(c(S))
    sys.exit(0 if r[0].shape==r[1].shape and np.allclose(*r) else 1)
""", needs="a small max_imf option and serial mode", breaks="serial mode truncates the noise decomposition, parallel mode does not"),
dict(id="s16-call-drops-T", property="C16",
  edits=[("PyEMD/CEEMDAN.py", "        return self.ceemdan(S, T=T, max_imf=max_imf, progress=progress)\n", "        return self.ceemdan(S, T=T if not progress else None, max_imf=max_imf, progress=progress)\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
t=np.linspace(0,1,100)**2; S=np.sin(30*t)+t
r=[CEEMDAN(trials=2,parallel=False,seed=1,extrema_detection='parabol')(S,t,progress=p) for p in (False,True)]
sys.exit(0 if r[0].shape==r[1].shape and np.allclose(*r) else 1)
""", needs="progress display, a non-uniform time axis and parabolic extrema", breaks="the call operator drops the time axis when progress is shown"),
dict(id="s17-progress-skips", property="C16",
  edits=[("PyEMD/EEMD.py", "        it = iter if not progress else lambda x: tqdm(x, desc=\"EEMD\", total=self.trials)\n", "        it = iter if not progress else lambda x: tqdm(list(x)[: self.trials - 1], desc=\"EEMD\", total=self.trials)\n")],
  demo=PRE+"""from PyEMD import EEMD
t=np.linspace(0,1,100); S=np.sin(30*t)+t
r=[]
for p in (False,True):
    e=EEMD(trials=4); e.noise_seed(1); r.append(e(S,progress=p))
sys.exit(0 if r[0].shape==r[1].shape and np.allclose(*r) else 1)
""", needs="progress display", breaks="the last trial is left out of the average when progress is shown"),
dict(id="s18-seterr", property="C22",
  edits=[("PyEMD/EMD.py", "        # Standard deviation test\n        std =", "        # Standard deviation test\n        if np.any(imf_new == 0):\n            np.seterr(divide=\"ignore\", invalid=\"ignore\")\n        std =")],
  demo=PRE+"""from PyEMD import EMD
before=np.geterr()
e=EMD(svar_thr=0)
x=np.array([0.,1,0,-1,0,1,0,-1,0]*5)
e.check_imf(x,x*1.5,np.array([[0],[1.]]),np.array([[0],[-1.]]))
sys.exit(0 if np.geterr()==before else 1)
""", needs="a proto-IMF with an exact zero sample", breaks="numpy's global error state is changed"),
]
