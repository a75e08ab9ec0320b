PRE = "import numpy as np, sys\n"
SEEDS = [
dict(id="s01-residue-tol", property="C01",
  edits=[("PyEMD/EMD.py", "        if not np.allclose(self.residue, 0):\n            IMF = np.vstack((IMF, self.residue))", "        if not np.allclose(self.residue, 0, atol=1e-4):\n            IMF = np.vstack((IMF, self.residue))")],
  demo=PRE+"""from PyEMD import EMD
t=np.linspace(0,1,400)
S=1e-5*np.sin(35*t)+3e-5*t
r=EMD()(S)
sys.exit(0 if np.allclose(r.sum(0),S,rtol=1e-7,atol=1e-9) else 1)
""", needs="a signal whose trend is small in absolute terms (micro-units)", breaks="the trend is silently dropped from the returned rows"),
dict(id="s02-ceemdan-small-remainder", property="C01",
  edits=[("PyEMD/EMD2d.py", "            residue = image - np.sum(IMF[:imfNo], axis=0)\n", "            residue = image - np.sum(IMF[: max(imfNo, 1)], axis=0)\n")] if False else
        [("PyEMD/CEEMDAN.py", "        all_cimfs = np.vstack((all_cimfs, res))\n        all_cimfs = all_cimfs * scale_s\n", "        if np.max(np.abs(res)) > self.range_thr:\n            all_cimfs = np.vstack((all_cimfs, res))\n        all_cimfs = all_cimfs * scale_s\n")],
  demo=PRE+"""from PyEMD import CEEMDAN
t=np.linspace(0,1,200)
S=1000*np.sin(40*t)
bad=0
for seed in range(6):
    c=CEEMDAN(trials=4,parallel=False,seed=seed,range_thr=0.5,total_power_thr=500)
    r=c(S)
    if not np.allclose(r.sum(0),S,atol=1e-6): bad+=1
sys.exit(1 if bad else 0)
""", needs="a final remainder smaller than the range threshold", breaks="the remainder below range_thr is not returned"),
dict(id="s03-vis-nonfinite", property="C03",
  edits=[("PyEMD/EMD.py", "        d = np.diff(t)\n        assert", "        d = np.diff(t)\n        assert")] if False else
        [("PyEMD/visualisation.py", "        if imfs is None:\n            raise AttributeError(\"No imfs passed to plot\")\n", "        if imfs is None:\n            raise AttributeError(\"No imfs passed to plot\")\n        imfs = np.asarray(imfs)\n        if not np.all(np.isfinite(imfs)):\n            imfs[~np.isfinite(imfs)] = 0.0\n")],
  demo=PRE+"""from PyEMD import Visualisation
x=np.ones((2,50)); x[0,3]=np.nan; y=x.copy()
Visualisation().plot_imfs(x,residue=np.zeros(50))
sys.exit(0 if np.array_equal(x,y,equal_nan=True) else 1)
""", needs="IMFs holding a non-finite sample", breaks="plotting zeroes the non-finite samples of the caller's array"),
dict(id="s04-pool-norelease", property="C08",
  edits=[("PyEMD/CEEMDAN.py", "        # Normalize w/ respect to 1st IMF's std\n        if self.beta_progress:\n", "        # Normalize w/ respect to 1st IMF's std\n        if self.parallel and self.beta_progress:\n            stds = Pool(processes=self.processes).map(np.std, [imfs[0] for imfs in all_noise_EMD])\n            return [imfs / imfs_std for (imfs, imfs_std) in zip(all_noise_EMD, stds)]\n        if self.beta_progress:\n")],
  demo=PRE+"""import multiprocessing.pool as mp, gc
import importlib; C=importlib.import_module('PyEMD.CEEMDAN')
import multiprocessing
opened=[]
real=C.Pool
def P(*a,**k):
    p=real(*a,**k); opened.append(p); return p
C.Pool=P
if __name__=="__main__":
    S=np.sin(np.linspace(0,40,100))
    C.CEEMDAN(trials=2,processes=2)(S)
    left=[p for p in opened if p._state==mp.RUN]
    for p in opened: p.terminate()
    sys.exit(1 if left else 0)
""", needs="parallel=True with beta_progress", breaks="a pool opened to normalise the noise is never closed"),
]
