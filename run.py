#!/usr/bin/env python3
"""Run one check:  python3 run.py C01 [--tier quick|thorough] [--repo DIR] [--verbose]

Exit 0: no obligation violated.  Exit 1: VIOLATION line.  Exit 2: the analysis
cannot be anchored (public construct gone, source does not parse)."""
import argparse
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class Timeout(BaseException):
    pass


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obls = []
        self.scope = []
        self.notes = []
        self.funcs = set()
        self.loops = 0
        self.terms = 0
        self.imprecise = []
        self._runs = set()
        self.tasks = []
        self.running, self.results = {}, {}

    def add(self, status, name, rule, where="", detail="", key=None):
        self.obls.append(dict(status=status, name=name, rule=rule, where=where, detail=str(detail)[:2000], key=key or name))

    def ok(self, name, rule, where="", detail=""):
        self.add("ok", name, rule, where, detail)

    def bad(self, name, rule, where="", detail="", key=None):
        self.add("violation", name, rule, where, detail, key)

    def undecided(self, name, rule, where="", detail=""):
        self.add("undecided", name, rule, where, detail)

    def verdict(self, v, name, rule, where="", detail="", key=None):
        {"ok": self.ok, "bad": self.bad, "unknown": self.undecided, "undecided": self.undecided}[v](
            *((name, rule, where, detail) if v != "bad" else (name, rule, where, detail, key)))

    def count(self, s):
        return sum(o["status"] == s for o in self.obls)

    def covered(self, run):
        I = run.I
        if id(I) in self._runs:
            return
        self._runs.add(id(I))
        self.funcs |= set(I.analysed)
        self.loops += len(I.loops)
        self.imprecise += I.imprecise[:5]

    def guard(self, name, rule, fn, limit=240):
        """Start a group of obligations in a worker process (it sees the current bindings)."""
        if getattr(self, "worker", False):
            return self.guarded(name, rule, fn, limit)
        jobs = min(8, os.cpu_count() or 1)
        while len(self.running) >= jobs:
            self.pump()
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                from sa.entry import AnchorMissing
                os.close(r)
                self.worker = True
                self.obls, self.funcs, self.loops, self.imprecise, self.scope = [], set(), 0, [], []
                err = None
                try:
                    self.guarded(name, rule, fn, limit)
                except AnchorMissing as e:
                    err = str(e)
                with os.fdopen(w, "wb") as fh:
                    pickle.dump((self.obls, self.funcs, self.loops, [str(x) for x in self.imprecise], self.scope, err), fh)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        self.running[r] = (len(self.tasks), pid, [])
        self.tasks.append((name, rule))

    def pump(self):
        rs, _, _ = select.select(list(self.running), [], [])
        for r in rs:
            chunk = os.read(r, 1 << 20)
            i, pid, buf = self.running[r]
            if chunk:
                buf.append(chunk)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del self.running[r]
            self.results[i] = b"".join(buf)

    def flush(self):
        """Wait for the started groups and collect their obligations in order."""
        from sa.entry import AnchorMissing
        while self.running:
            self.pump()
        tasks, self.tasks = self.tasks, []
        for i, (name, rule) in enumerate(tasks):
            try:
                obls, funcs, loops, imp, scope, err = pickle.loads(self.results[i])
            except Exception:
                self.undecided(name, rule, detail="analysis worker died")
                continue
            if err:
                raise AnchorMissing(err)
            self.obls += obls
            self.funcs |= funcs
            self.loops += loops
            self.imprecise += imp
            self.scope += scope
        self.results = {}

    def guarded(self, name, rule, fn, limit=240):
        """Run a group of obligations; an analysis failure makes it undecided."""
        from sa.entry import AnchorMissing

        def onalarm(*_):
            raise Timeout("analysis time limit")
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        n = len(self.obls)
        try:
            return fn()
        except AnchorMissing:
            raise
        except Timeout as e:
            self.undecided(name, rule, detail=str(e))
        except RecursionError:
            self.undecided(name, rule, detail="recursion limit")
        except Exception as e:
            del self.obls[n:]
            self.undecided(name, rule, detail="analysis gave up: %r at %s" % (e, traceback.format_exc().strip().splitlines()[-3:]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" -- ")
                out.append((key.strip(), what.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from sa.entry import AnchorMissing
    from sa.program import Program
    import importlib
    mod = importlib.import_module("checks." + a.pid.lower())
    rep = Report(a.pid, a.tier)
    err = None
    try:
        prog = Program(a.repo)
        mod.check(prog, rep, a.tier)
        rep.flush()
    except AnchorMissing as e:
        err = "anchor missing: %s" % e
    except SyntaxError as e:
        err = "source does not parse: %s" % e
    except Exception as e:          # an internal failure leaves the remaining obligations undecided; it is never a verdict
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = "analysis failed: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)
        try:
            rep.flush()
        except AnchorMissing:
            pass
    if a.verbose:
        for o in rep.obls:
            print("%-10s %s | %s | %s%s" % (o["status"], o["name"], o["where"], "" if o["status"] == "ok" else o["detail"][:600], ""))
        print("functions analysed: %d, loops: %d, imprecise: %s" % (len(rep.funcs), rep.loops, rep.imprecise[:4]))
    kf = known_findings(a.pid)
    viol = []
    for o in rep.obls:
        if o["status"] != "violation":
            continue
        hit = [w for k, w in kf if k == o["key"]]
        if hit:
            o["status"] = "known-finding"
            print("KNOWN-FINDING: property=%s %s" % (a.pid, hit[0]))
        else:
            viol.append(o)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    expect = getattr(mod, "EXPECT", None)
    ok = rep.count("ok")
    samples = [dict(obligation=o["name"], where=o["where"], status=o["status"], rule=o["rule"], detail=o["detail"][:400]) for o in rep.obls[:400]]
    ev = {
        "property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "coverage": {
            "explanation": mod.EXPLANATION,
            "obligations": len(rep.obls), "discharged": ok, "undecided": rep.count("undecided"), "known_findings": rep.count("known-finding"),
            "functions_analysed": sorted(rep.funcs), "loops_analysed": rep.loops, "scope": rep.scope,
            "samples": samples, "imprecision_notes": rep.imprecise[:20],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "library calls (numpy, scipy, multiprocessing, ...) behave as in the models of sa/npmodel.py",
            "floating-point arithmetic is treated as exact real arithmetic unless the rule says otherwise"],
    }
    if err:
        ev["coverage"]["error"] = err
    if expect is not None and ok < expect:
        ev["coverage"]["note"] = "fewer obligations discharged than on the pinned tree (%d < %d): some were undecided" % (ok, expect)
    with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
        fh.write("\n")
    if err and not viol and ok:
        print("WARNING property=%s incomplete, %s" % (a.pid, err))
    elif err and not viol:
        print("ERROR property=%s %s" % (a.pid, err))
        return 2
    if viol:
        rp = os.path.join(HERE, "evidence", "replay-%s.json" % a.pid)
        with open(rp, "w") as fh:
            json.dump(dict(property=a.pid, violations=viol, rerun="python3 run.py %s -v" % a.pid), fh, indent=1, default=str)
            fh.write("\n")
        for o in viol[:8]:
            print("  violated: %s\n    at %s\n    rule: %s\n    found: %s" % (o["name"], o["where"], o["rule"], o["detail"][:500]))
        print("VIOLATION property=%s replay=%s" % (a.pid, rp))
        return 1
    print("OK property=%s obligations=%d discharged=%d undecided=%d wall=%.1fs" % (a.pid, len(rep.obls), ok, rep.count("undecided"), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
