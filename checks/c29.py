from .common import *
from .equiv import compare
from .refute import refute
from sa.program import Program
from fractions import Fraction

EXPLANATION = ("The Boolean each stopping criterion returns is extracted from the code and compared, as a truth table over canonical comparisons "
               "(value numbering), with the documented formula (spec/spec/stop.py), for every input and threshold.")
R_IMF = "check_imf: extrema on the right side of zero, energy at least 1e-10, and one of scaled variance, standard deviation, energy ratio below its own threshold"
R_END = "end_condition: range of the remainder below range_thr or its L1 norm below total_power_thr"
R_CEND = "CEEMDAN.end_condition: max_imf reached, or the remainder yields a single component, or range/power below threshold"
R_RIL = "stop_sifting (Rilling): |mean| / (half the envelope distance) exceeds stop1 on at most a fraction stop3 of the samples and stop2 nowhere, with more than two extrema"
R_PROTO = "check_proto_imf: envelope mean flat, little change, small mean or small energy, each against its own threshold"
R_REC = "end_condition: the components add up to the image (np.allclose)"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def S(*names):
    return [V(sym(x)) for x in names]


def judge(rep, name, rule, r, got, want):
    v, why = compare(got, want)
    if v == "equal":
        rep.ok(name, rule, where(r), "equal to the formula")
        return
    ranks = {y.args[0]: {"eMax": 2, "eMin": 2, "IMF": 2, "imf": 2, "prev": 2, "mean": 2, "image": 2, "IMFs": 3}.get(y.args[0], 1)
             for x in (got, want) for y in t.walk(x) if y.op == "sym" and y.args[0] in ("new", "old", "eMax", "eMin", "S", "IMF", "imf", "prev", "mean", "image", "IMFs", "upper", "lower", "centre")}
    order = {k: ranks[k] for k in sorted(ranks, key=lambda k: (k in ("old", "prev", "image"), k))}
    scal = sorted({y.args[0] for x in (got, want) for y in t.walk(x) if y.op == "sym"} - set(ranks))
    ce = refute(got, want, order, scal)
    if ce:
        rep.bad(name, rule, where(r), ce[:400])
    elif v == "different" and refute.done < 200:
        rep.bad(name, rule, where(r), why)
    else:
        # the comparisons the truth table treats as independent may be related
        rep.undecided(name, rule, where(r), "no difference at %d points; %s" % (refute.done, why))


def pair(prog, sp, rep, name, rule, qual, args, spec, sargs):
    def go():
        r = enter(prog, qual, args=args)
        rep.covered(r)
        judge(rep, name, rule, r, r.returned, enter(sp, "spec.stop." + spec, args=sargs).returned)
    rep.guard(name, rule, go)


def ceemdan(prog, sp, rep):
    r = enter(prog, "PyEMD.CEEMDAN.CEEMDAN.end_condition", args=[arrin("S"), arrin("IMF", 2), scin("max_imf")], opaque=runs.opaque_emd(prog), ctor=dict(kw={"ext_EMD": V(NONE)}))
    rep.covered(r)
    got = r.returned
    R = t.sub(sym("S"), mk("sumrows", sym("IMF")))
    calls = {y for y in t.walk(got) if y.op == "app" and y.args[0] == "EMD.emd"}
    if len(calls) != 1:
        (rep.undecided if unknown_atoms(got) or calls else rep.bad)("CEEMDAN.end_condition", R_CEND, where(r), "%d trial decompositions of the remainder" % len(calls))
        return
    c = calls.pop()
    if c.args[1] is not R or c.args[3] is not ONE:
        (rep.undecided if unknown_atoms(c) else rep.bad)("CEEMDAN.end_condition", R_CEND, where(r), "decomposes %s with limit %s" % (t.show(c.args[1], 3), t.show(c.args[3], 2)))
        return
    m = {y: sym("probe") for y in t.walk(got) if y.op == "app" and len(y.args) == 2 and y.args[1] is c and y.args[0] in ("rows", "len", "nrows")}
    for y in t.walk(got):
        if y.op == "idx" and y.args[0].op == "app" and y.args[0].args[0] == "shape" and y.args[0].args[1] is c:
            m[y] = sym("probe")
    m[sym("S")] = sym("S")
    got = t.subst(got, m)
    want = enter(sp, "spec.stop.ceemdan_finished", args=[arrin("S"), arrin("IMF", 2), scin("max_imf"), scin("probe")] + S("self.range_thr", "self.total_power_thr")).returned
    judge(rep, "CEEMDAN.end_condition", R_CEND, r, got, want)


def check(prog, rep, tier):
    sp = Program(SPEC, "spec")
    A = [arrin("new"), arrin("old"), arrin("eMax", 2), arrin("eMin", 2)]
    pair(prog, sp, rep, "EMD.check_imf", R_IMF, "PyEMD.EMD.EMD.check_imf", A, "huang", A + S("self.svar_thr", "self.std_thr", "self.energy_ratio_thr"))
    K = S("svar_thr", "std_thr", "energy_ratio_thr")
    pair(prog, sp, rep, "numba check_imf", R_IMF, "PyEMD.experimental.jitemd.check_imf", A + K, "huang", A + K)
    B = [arrin("S"), arrin("IMF", 2)]
    pair(prog, sp, rep, "EMD.end_condition", R_END, "PyEMD.EMD.EMD.end_condition", B, "finished", B + S("self.range_thr", "self.total_power_thr"))
    K = S("range_thr", "total_power_thr")
    pair(prog, sp, rep, "numba end_condition", R_END, "PyEMD.experimental.jitemd.end_condition", B + K, "finished", B + K)
    C = [arrin("imf", 2), arrin("prev", 2), arrin("mean", 2)]
    D = [arrin("image", 2), arrin("IMFs", 3)]
    for c, rtol in (("EMD2d.EMD2D", "1e-5"), ("BEMD.BEMD", "0.01")):
        n = c.split(".")[1]
        pair(prog, sp, rep, n + ".check_proto_imf", R_PROTO, "PyEMD.%s.check_proto_imf" % c, C, "proto", C + S("self.mean_thr", "self.mse_thr") + [V(num(Fraction(rtol)))])
        pair(prog, sp, rep, n + ".end_condition", R_REC, "PyEMD.%s.end_condition" % c, D, "reconstructed", D)
    F = [arrin("upper"), arrin("lower"), arrin("centre"), scin("extrema")]
    pair(prog, sp, rep, "MATLAB stop_sifting", R_RIL, "PyEMD.EMD_matlab.EMD.stop_sifting", [arrin("imf1")] + F, "rilling", F + S("self.stop1", "self.stop2", "self.stop3"))
    rep.guard("CEEMDAN.end_condition", R_CEND, lambda: ceemdan(prog, sp, rep))
