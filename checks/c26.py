from .common import *
from .small import Small, OutOfTable, table, reconstruction, thresholds, witness
import numpy as np

EXPLANATION = ("The enlarged image and the masks of extrema are extracted as array terms (slice stores, flips, neighbourhood filters, comparisons) and read entry by entry for small images with symbolic pixels; every entry is compared with "
               "its definition.")
R_BIG = "the enlarged image is the 3 x 3 grid of the image (centre) and its mirror images: entry (i, j) is the pixel reflected over the nearest border"
R_MAX = "maxima are exactly the inner pixels not below any of their eight neighbours, minima those not above any; positions are (rows, columns)"
R_BMAX = "maxima are the pixels raised above the reconstruction of the image lowered by one; minima are the maxima of the negative image; positions are (columns, rows)"


def value(r, x, env):
    """term -> table, or list of (mask table, axis) for positions"""
    return Small(env).ev(x)


def guard(rep, name, rule, r, fn):
    if r.dead:
        rep.bad(name, rule, where(r), "always ends in an error")
        return
    try:
        bad = fn()
    except Unknown as e:
        rep.undecided(name, rule, where(r), e)
        return
    except OutOfTable as e:
        rep.bad(name, rule, where(r), e)
        return
    except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
        rep.undecided(name, rule, where(r), "no entry-wise reading: %s" % e)
        return
    rep.verdict("bad" if bad else "ok", name, rule, where(r), bad or "all entries agree")


def differ(a, b):
    if not isinstance(a, np.ndarray) or a.shape != b.shape:
        return "shape %s, not %s" % (getattr(a, "shape", None), b.shape)
    for ix in np.ndindex(*b.shape):
        u, v = a[ix], b[ix]
        if u is v:
            continue
        if not (u.op in ("bool", "lt0", "le0", "eq0", "and", "or", "not")) and t.is_zero(t.sub(u, v)):
            continue
        if u.op == v.op == "lt0" or u.op == "le0" and v.op == "lt0":
            d = t.sub(u.args[0], v.args[0])
            if d.op == "num" and d is not ZERO and abs(d.args[0]) < 1 and any(y.op == "app" and y.args[0] == "dilated" for y in t.walk(v)):
                return "a height of %s above the surroundings is required of an extremum, not any height" % t.show(d, 2)
        w = witness(u, v, b.shape)
        if w is None:
            raise Unknown("entry %s is %s, not written as %s" % (ix, t.show(u, 4)[:120], t.show(v, 4)[:120]))
        return "entry %s is %s, not %s, which differ when %s" % (ix, t.show(u, 4)[:160], t.show(v, 4)[:160], ", ".join("%s=%s" % (k.args[0], e) for k, e in w.items())[:160])
    return None


def mirror(i, n):
    return n - 1 - i if i < n else i - n if i < 2 * n else 3 * n - 1 - i


def masks(x, env):
    """((mask, axis), ...) of a tuple of nonzero terms"""
    out = []
    if x.op != "tuple":
        raise Unknown("positions are not a tuple: " + t.show(x, 2)[:80])
    for y in x.args:
        while y.op == "app" and y.args[0] in ("copy", "cast", "np.array", "np.asarray"):
            y = y.args[1]
        if y.op == "app" and y.args[0] == "nonzero" and len(y.args) == 3 and y.args[2].op == "num":
            out.append((Small(env).ev(y.args[1]), int(y.args[2].args[0])))
        else:
            raise Unknown("positions " + t.show(y, 2)[:80])
    return out


def positions(x, env, want, axes):
    ms = masks(x, env)
    if [a for _, a in ms] != list(axes):
        return "coordinates in order %s, not %s" % ([a for _, a in ms], list(axes))
    for m, _ in ms:
        b = differ(m, want)
        if b:
            return b
    return None


def check(prog, rep, tier):
    big = 5 if tier == "thorough" else 4
    r = enter(prog, "PyEMD.EMD2d.EMD2D.prepare_image", args=[arrin("image", 2)])
    rep.covered(r)
    sizes = sorted(set(range(1, big + 1)) | set(thresholds(r.returned)))
    for h in sizes:
        for w in sizes:
            if max(h, w) > big and h != w and min(h, w) != 3:
                continue
            tab = table("p", h, w)

            def f():
                want = np.empty((3 * h, 3 * w), dtype=object)
                for i, j in np.ndindex(3 * h, 3 * w):
                    want[i, j] = tab[mirror(i, h), mirror(j, w)]
                return differ(Small({sym("image"): tab}).ev(r.returned), want)
            guard(rep, "EMD2D.prepare_image of %d x %d" % (h, w), R_BIG, r, f)
    r2 = enter(prog, "PyEMD.EMD2d.EMD2D.find_extrema", args=[arrin("image", 2)])
    rep.covered(r2)
    more = tuple((k, k) for k in thresholds(r2.returned, top=16) if k > 3)
    for h, w in ((3, 3), (3, 5), (5, 4), (2, 4)) + more + (((6, 6), (7, 3)) if tier == "thorough" else ()):
        tab = table("p", h, w)
        env = {sym("image"): tab}
        for k, name in enumerate(("minima", "maxima")):
            def f():
                want = np.empty((h, w), dtype=object)
                for i, j in np.ndindex(h, w):
                    inner = 0 < i < h - 1 and 0 < j < w - 1
                    nb = [tab[i + a, j + b] for a in (-1, 0, 1) for b in (-1, 0, 1) if (a or b)] if inner else []
                    want[i, j] = t.and_(*[t.le0(t.sub(n, tab[i, j]) if k else t.sub(tab[i, j], n)) for n in nb]) if inner else FALSE
                x = r2.returned
                if x.op != "tuple" or len(x.args) != 2:
                    raise Unknown("the result is not a pair")
                return positions(x.args[k], env, want, (0, 1))
            guard(rep, "EMD2D.find_extrema, %s of %d x %d" % (name, h, w), R_MAX, r2, f)
    runs = [("find_extrema_positions", 0, -1), ("find_extrema_positions", 1, 1), ("extract_minima_positions", None, -1), ("extract_maxima_positions", None, 1)]
    for q, k, sign in runs:
        r3 = enter(prog, "PyEMD.BEMD.BEMD." + q, args=[arrin("image", 2)])
        rep.covered(r3)
        for h, w in ((2, 3), (3, 3)):
            tab = table("p", h, w)

            def f():
                im = tab if sign > 0 else np.vectorize(t.neg, otypes=[object])(tab)
                low = np.vectorize(lambda y: t.sub(y, ONE), otypes=[object])(im)
                rec = reconstruction(low, im, "dilation")
                want = np.empty((h, w), dtype=object)
                for ix in np.ndindex(h, w):
                    want[ix] = t.lt0(t.sub(rec[ix], im[ix]))
                x = r3.returned
                if k is not None:
                    if x.op != "tuple" or len(x.args) != 2:
                        raise Unknown("the result is not a pair")
                    x = x.args[k]
                return positions(x, {sym("image"): tab}, want, (1, 0))
            guard(rep, "BEMD.%s, %s of %d x %d" % (q, "maxima" if sign > 0 else "minima", h, w), R_BMAX, r3, f)
