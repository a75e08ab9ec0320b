PRE = "import numpy as np, sys\n"
SEEDS = [
dict(id="s47-spline-middle", property="C27",
  edits=[("PyEMD/splines.py", "2.0 * (_x1x0 + _x2x1), _x2x1", "4.0 * max(_x1x0, _x2x1), _x2x1")],
  demo=PRE+'''from PyEMD.splines import cubic_spline_3pts
from scipy.interpolate import CubicSpline
for x in ([0,1,2],[0,1,4],[0,.3,2]):
    x=np.array(x,float); y=np.array([1,-2,3.]); T=np.linspace(x[0],x[2],41)
    t,q=cubic_spline_3pts(x,y,T)
    if not np.allclose(q,CubicSpline(x,y,bc_type="natural")(t)): sys.exit(1)
''', needs="three extrema at uneven spacing", breaks="the curvature jumps at the middle point"),
dict(id="s48-hermite-slopes", property="C27",
  edits=[("PyEMD/splines.py", "dydx = np.gradient(Y, X)", "dydx = np.gradient(Y) / np.mean(np.diff(X))")],
  demo=PRE+'''from PyEMD.splines import cubic_hermite
from scipy.interpolate import CubicHermiteSpline
X=np.array([0,1,2.5,3,5.]); Y=np.array([0,1,-1,2,0.]); x=np.linspace(0,5,51)
sys.exit(0 if np.allclose(cubic_hermite(X,Y,x), CubicHermiteSpline(X,Y,np.gradient(Y,X))(x)) else 1)
''', needs="unevenly spaced extrema with cubic_hermite", breaks="slopes are scaled by the mean spacing instead of the local one"),
dict(id="s49-mirror-corner", property="C27",
  edits=[("PyEMD/EMD2d.py", "big_image[2 * shape[0] :, 2 * shape[1] :] = image_lr_ud", "big_image[2 * shape[0] :, 2 * shape[1] :] = image_lr")],
  demo=PRE+'''from PyEMD.EMD2d import EMD2D
im=np.arange(12.).reshape(3,4)**1.5
sys.exit(0 if np.array_equal(EMD2D.prepare_image(im), np.pad(im,((3,3),(4,4)),mode="symmetric")) else 1)
''', needs="an image that is not symmetric top to bottom", breaks="one corner of the extended image is not the mirror image"),
dict(id="s50-bemd-axes", property="C27",
  edits=[("PyEMD/BEMD.py", "return np.where(cleaned_image > 0)[::-1]", "return np.where(cleaned_image > 0)")],
  demo=PRE+'''import types
try:
    from PyEMD.BEMD import BEMD, reconstruction
except ImportError:
    import PyEMD.BEMD as B; sys.exit(0)
rng=np.random.RandomState(1)
im=rng.rand(9,9)*6
b=BEMD(); mn,mx=b.find_extrema_positions(im)
lo,hi=b.extract_max_min_spline(im,mn,mx)
ref=im-reconstruction(im-1,im,method="dilation")>0
sys.exit(0 if np.allclose(hi[ref],im[ref],atol=1e-6) else 1)
''', needs="a two-dimensional image that is not symmetric under transposition", breaks="extrema coordinates are handed over as (row, column) where (x, y) is expected"),
dict(id="s51-linear-kind", property="C27",
  edits=[("PyEMD/EMD_matlab.py", "            return T, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)", "            kind = kind.lstrip(\"s\").replace(\"quadratic\", \"linear\")\n            return T, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)")],
  demo=PRE+'''from PyEMD.EMD_matlab import EMD
from scipy.interpolate import interp1d
e=EMD(); e.DTYPE=np.dtype(float)
E=np.array([[0,1,2.5,3,5.],[0,1,-1,2,0.]]); x=np.linspace(0,5,51)
sys.exit(0 if all(np.allclose(e.splinePoints(x,E,k)[1], interp1d(E[0],E[1],kind=k)(x)) for k in ("linear","slinear","quadratic")) else 1)
''', needs="MATLAB-style EMD with quadratic splines", breaks="quadratic envelopes become linear"),
dict(id="s52-span-open", property="C27",
  edits=[("PyEMD/experimental/jitemd.py", "    t = T[np.logical_and(T >= extrema[0, 0], T <= extrema[0, -1])]\n\n    if kind", "    t = T[np.logical_and(T >= extrema[0, 0], T < extrema[0, -1])]\n\n    if kind")],
  demo=PRE+'''from PyEMD.experimental import jitemd
E=np.array([[0,1,2.5,3,5.],[0,1,-1,2,0.]]); x=np.linspace(0,5,51)
sys.exit(0 if all(len(jitemd.spline_points(x,E,k)[1])==51 for k in ("cubic","akima")) else 1)
''', needs="numba EMD, an extended extremum exactly at the last sample", breaks="the envelope lacks the last sample"),
]
