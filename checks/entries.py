"""The public operations of the package, each in an analysis context with
symbolic inputs of the documented kinds."""
from .common import *

RANK2 = {"image", "IMFs", "cIMFs", "IMF", "imfs", "extrema", "sig", "proto_imf", "proto_imf_prev", "mean_env"}
SCALAR = {"max_imf", "maxImf", "alpha", "nbsym", "h", "rescaling_imf", "N", "scale", "size", "seed", "progress", "range_max", "dtype", "ref_dtype",
          "ref_value", "xtype", "ytype", "test_name", "spline_kind", "splineKind", "extrema_detection", "order", "include_residue", "decimals",
          "range_thr", "total_power_thr", "svar_thr", "std_thr", "energy_ratio_thr", "trial", "extNo", "trials", "energy_density",
          "scaled_energy_density", "lvls", "out"}
TWO_D = ("PyEMD.EMD2d.", "PyEMD.BEMD.")
KEY = {   # operations that must exist: the documented API
    "PyEMD.EMD.EMD.emd", "PyEMD.EMD.EMD.__call__", "PyEMD.EMD.EMD.get_imfs_and_residue", "PyEMD.EMD.EMD.get_imfs_and_trend",
    "PyEMD.EEMD.EEMD.eemd", "PyEMD.EEMD.EEMD.__call__", "PyEMD.CEEMDAN.CEEMDAN.ceemdan", "PyEMD.CEEMDAN.CEEMDAN.__call__",
    "PyEMD.EMD2d.EMD2D.emd", "PyEMD.BEMD.BEMD.bemd", "PyEMD.experimental.jitemd.emd", "PyEMD.experimental.jitemd.JitEMD.emd",
    "PyEMD.checks.whitenoise_check", "PyEMD.compact.filt6", "PyEMD.compact.pade6",
}


def kind_of(f, p, node):
    if p == "config":
        return "config"
    if p in SCALAR:
        return "scalar"
    ann = ast_text(node.annotation)
    if ann and not any(k in ann for k in ("ndarray", "array", "Sequence", "Tuple", "List")):
        return "scalar"
    if p == "T" and f.qual.startswith("PyEMD.checks."):
        return "scalar"
    if p in RANK2 and not (p == "sig" and False):
        return 2
    if p in ("X", "Y", "Z", "xi", "yi") and f.qual.startswith(TWO_D):
        return 1
    return 1


def ast_text(a):
    import ast
    return ast.unparse(a) if a is not None else ""


def arg_for(f, p, node):
    k = kind_of(f, p, node)
    if k == "config":
        return runs.config_dict
    if k == "scalar":
        return scin(p)
    return arrin(p, k)


def public_functions(prog):
    for f in prog.functions():
        q = f.qual
        if ".tests" in q or "perf_test" in q or "examples" in q:
            continue
        if f.name.startswith("_") and f.name != "__call__":
            continue
        if f.cls is not None and f.cls.name.startswith("_"):
            continue
        yield f


def params(f):
    a = f.node.args
    ps = list(a.posonlyargs) + list(a.args)
    if f.cls is not None and not f.is_static:
        ps = ps[1:]
    return ps + list(a.kwonlyargs)


def run_public(prog, f, none=(), opaque=None, selfattrs=None, fixed=None, setup=None):
    """Analyse one public function; parameters named in `none` are None."""
    ps = params(f)
    npos = len(ps) - len(f.node.args.kwonlyargs)
    args, kw = [], {}
    for i, p in enumerate(ps):
        if fixed and p.arg in fixed:
            v = fixed[p.arg]
        elif p.arg in none:
            v = V(NONE)
        elif p.arg == "self" or (f.is_static and i == 0 and p.arg == "self"):
            v = runs.instance(f.cls.qual)
        else:
            v = arg_for(f, p.arg, p)
        if i < npos:
            args.append(v)
        else:
            kw[p.arg] = v
    c = {}
    if f.cls is not None and f.cls.name in ("EEMD", "CEEMDAN"):
        c = dict(ctor=dict(kw={"ext_EMD": V(NONE)}))
        opaque = dict(runs.opaque_emd(prog), **(opaque or {}))
    if f.cls is not None and f.cls.name == "Visualisation":
        c = dict(ctor=dict(kw={"emd_instance": V(NONE)}))
    return enter(prog, f.qual, args=args, kw=kw, opaque=opaque, gen=not f.is_static, selfattrs=selfattrs, setup=setup, **c)


def optional_arrays(f):
    """Array parameters whose default is None (both cases are analysed)."""
    import ast
    a = f.node.args
    ps = list(a.posonlyargs) + list(a.args)
    out = []
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant) and d.value is None and kind_of(f, p.arg, p) not in ("scalar", "config"):
            out.append(p.arg)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None and isinstance(d, ast.Constant) and d.value is None and kind_of(f, p.arg, p) not in ("scalar", "config"):
            out.append(p.arg)
    return out
