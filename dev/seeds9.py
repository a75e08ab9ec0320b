PRE = "import numpy as np, sys, os\nos.environ['MPLBACKEND']='Agg'\n"
SEEDS = [
dict(id="s58-filter-end-row", property="C18",
  edits=[("PyEMD/compact.py", "    Da[-3] = Dc[-3] = 0.0\n", "    Da[-3] = 0.0\n")],
  demo=PRE+'''from PyEMD.compact import filt6
x=np.linspace(0,1,20)
for al in (0.4,-0.3):
    f=x**3-x+2
    if not np.allclose(filt6(f,al),f): sys.exit(1)
sys.exit(0)
''', needs="a filter intensity other than 0 and the third sample from the end", breaks="the compact filter no longer keeps smooth data near the end"),
dict(id="s59-mean-period", property="C19",
  edits=[("PyEMD/checks.py", "    peaks = len(find_peaks(data, height=0)[0])\n    return len(data) / peaks if peaks > 0 else len(data)", "    peaks = len(find_peaks(data, height=0)[0])\n    return len(data) / peaks if peaks > 1 else len(data)")],
  demo=PRE+'''from PyEMD.checks import mean_period, whitenoise_check
d=np.sin(np.linspace(0,2*np.pi,64))
ok = mean_period(d)==64
e=np.concatenate([[0,1.,0],np.zeros(5)])
ok = ok and mean_period(np.concatenate([e,e[:3]*0]))==11 and mean_period(np.tile([0,1.,0,-1],16))==4.0
sys.exit(0 if ok else 1)
''', needs="never: the mean period of one peak is the length anyway", breaks="nothing"),
dict(id="s60-rescale-index", property="C19",
  edits=[("PyEMD/checks.py", "            if idx != rescaling_imf - 1:\n", "            if idx != (rescaling_imf - 1) % (len(IMFs) - 1 or 1):\n")],
  demo=PRE+'''from PyEMD.checks import whitenoise_check
import math
r=np.random.RandomState(3)
for s in range(40):
    r=np.random.RandomState(s)
    imfs=np.array([r.randn(200), np.sin(np.arange(200)/3.)*r.rand(), 5*np.sin(np.arange(200)/17.)*r.rand()])
    out=whitenoise_check(imfs,test_name="aposteriori",rescaling_imf=3)
    if out[3]!=0: sys.exit(1)                 # the reference lies on the limit
    big=whitenoise_check(imfs*np.array([[1e3],[1],[1]]),test_name="aposteriori",rescaling_imf=3)
    if big[1]!=1: sys.exit(1)                 # a huge first component is significant
sys.exit(0)
''', needs="the last component as reference of the a posteriori test", breaks="the reference component is rescaled like the others and the first one is put on the limit instead"),
dict(id="s61-plot-own-residue", property="C23",
  edits=[("PyEMD/visualisation.py", "        residue = residue if residue is not None else self.residue\n", "        residue = self.residue if self.residue is not None else residue\n")],
  demo=PRE+'''import matplotlib; matplotlib.use("Agg")
import pylab as plt
from PyEMD import EMD, Visualisation
t=np.linspace(0,1,200); e=EMD(); e.emd(np.sin(40*t)+t**2+np.sin(9*t),t)
v=Visualisation(e); imfs=np.random.RandomState(0).randn(2,200); res=np.random.RandomState(1).randn(200)
v.plot_imfs(imfs=imfs,residue=res,t=t)
ax=plt.gcf().axes
sys.exit(0 if np.array_equal(ax[-1].lines[0].get_ydata(),res) and np.array_equal(ax[0].lines[0].get_ydata(),imfs[0]) else 1)
''', needs="a visualisation made from a decomposition object and residue passed explicitly to plot_imfs", breaks="the object's residue is drawn instead of the one passed"),
dict(id="s62-phase-filter", property="C23",
  edits=[("PyEMD/visualisation.py", "            phase = np.array([filt6(row, alpha) for row in phase])  # Filter phase\n", "            phase = np.array([filt6(row, alpha) if i else row for i, row in enumerate(phase)])  # Filter phase\n")],
  demo=PRE+'''from PyEMD import Visualisation
from PyEMD.compact import filt6
from scipy.signal import hilbert
x=np.linspace(0,1,64); imfs=np.array([np.sin(60*x)+np.sin(150*x),np.cos(40*x**2)])
got=Visualisation()._calc_inst_phase(imfs,0.1)
for r,g in zip(imfs,got):
    h=hilbert(r); z=filt6(h.real,0.1)+1j*filt6(h.imag,0.1)
    if not np.allclose(filt6(np.unwrap(np.angle(z)),0.1),g): sys.exit(1)
sys.exit(0)
''', needs="plot_instant_freq with alpha", breaks="the phase of the first component is not filtered"),
dict(id="s63-timeline-type", property="C24",
  edits=[("PyEMD/utils.py", "            if ref_value < np.iinfo(dtype).max:\n", "            if ref_value - 2 <= np.iinfo(dtype).max:\n")],
  demo=PRE+'''from PyEMD.utils import smallest_inclusive_dtype, get_timeline
for n in (300, 65000, 65535, 65536, 65537, 65538, 70000):
    d=smallest_inclusive_dtype(np.dtype(np.uint8),n)
    if n-1>np.iinfo(d).max: sys.exit(1)
sys.exit(0)
''', needs="an integer signal of 65537 samples", breaks="the chosen type cannot hold the last sample number"),
dict(id="s64-first-increment", property="C24",
  edits=[("PyEMD/EMD.py", "        return (t - t[0]) / np.min(d)\n", "        return (t - t[0]) / (d[0] if len(d) > 40 else np.min(d))\n")],
  demo=PRE+'''from PyEMD import EMD
t=np.cumsum(np.concatenate([[3.],np.linspace(2,0.5,59)]))
u=EMD._normalize_time(t)
sys.exit(0 if u[0]==0 and np.isclose(np.diff(u).min(),1) else 1)
''', needs="more than 41 samples on a non-uniform time axis whose first increment is not the smallest", breaks="the normalised time axis is not in units of the smallest increment"),
dict(id="s65-corner", property="C26",
  edits=[("PyEMD/EMD2d.py", "        image_lr_ud = np.fliplr(image_ud)\n", "        image_lr_ud = np.rot90(image_ud) if shape[0] == shape[1] else np.fliplr(image_ud)\n")],
  demo=PRE+'''from PyEMD.EMD2d import EMD2D
for sh in ((4,6),(5,5)):
    im=np.arange(sh[0]*sh[1],dtype=float).reshape(sh)
    if not np.array_equal(EMD2D.prepare_image(im),np.pad(im,[(sh[0],sh[0]),(sh[1],sh[1])],mode="symmetric")): sys.exit(1)
sys.exit(0)
''', needs="square images", breaks="the right corner blocks are rotated instead of mirrored"),
dict(id="s66-border-extrema", property="C26",
  edits=[("PyEMD/EMD2d.py", "        max_peaks[:, [0, -1]] = False\n", "        max_peaks[:, [0, 1 - len(image)]] = False\n")],
  demo=PRE+'''from PyEMD.EMD2d import EMD2D
for sh in ((6,6),(6,9)):
    im=np.random.RandomState(2).rand(*sh); im[3,-1]=5; im[2,1]=4
    mn,mx=EMD2D.find_extrema(im)
    got=set(zip(*[map(int,c) for c in mx]))
    want={(i,j) for i in range(1,sh[0]-1) for j in range(1,sh[1]-1) if im[i,j]>=im[i-1:i+2,j-1:j+2].max()}
    if got!=want: sys.exit(1)
sys.exit(0)
''', needs="extrema in the last column or in an inner one", breaks="border pixels are reported as maxima and inner ones dropped"),
dict(id="s67-bemd-contrast", property="C26",
  edits=[("PyEMD/BEMD.py", "        return np.where(cleaned_image > 0)[::-1]\n", "        return np.where(cleaned_image >= min(1, image.max() - image.min()))[::-1]\n")],
  demo=PRE+'''from PyEMD.BEMD import BEMD
x=np.arange(30.); im=np.cos(x/3)[:,None]*np.cos(x/2)[None,:]; im[10:14,10:14]+=0.0
c,r=BEMD.extract_maxima_positions(im)
from skimage.morphology import reconstruction
want=np.nonzero(im-reconstruction(im-1,im,method="dilation")>0)
sys.exit(0 if np.array_equal(r,want[0]) and np.array_equal(c,want[1]) else 1)
''', needs="maxima standing out by less than one unit", breaks="maxima of small contrast are not found"),
dict(id="s68-matlab-longer-time", property="C12",
  edits=[("PyEMD/EMD_matlab.py", "        if S.shape != T.shape:\n", "        if S.shape[0] > T.shape[0]:\n")],
  demo=PRE+'''from PyEMD.EMD_matlab import EMD
e=EMD(); S=np.sin(np.linspace(0,30,100)); T=np.linspace(0,1,120)
try:
    e.emd(e,S,T) if False else EMD.emd(e,S,T)
except ValueError: sys.exit(0)
except TypeError:
    try: EMD.emd(e,e,S,T)
    except ValueError: sys.exit(0)
    except Exception: sys.exit(1)
except Exception: sys.exit(1)
sys.exit(1)
''', needs="a time axis longer than the signal", breaks="a mismatched time axis is not refused"),
]
SEEDS = [s for s in SEEDS if s["id"] != "s59-mean-period"]
