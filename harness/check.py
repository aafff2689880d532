"""check.py ID [--calls N]: decide one property on the current /repo tree."""
import importlib, json, os, random, sys, time, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import scenarios as sc

PROP = sys.argv[1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "600" if TIER == "thorough" else "60"))


class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = self.calls = self.amb = 0
        self.models = []
        self.fns = collections.Counter()
        self.samples = []
        self.kinds = collections.Counter()


def known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for ln in open(p) if os.path.exists(p) else []:
        if ln.startswith("known: "):
            d = dict(x.split("=", 1) for x in ln[7:].split(" | ")[0].split() if "=" in x)
            d["text"] = ln.split(" | ", 1)[1].strip() if " | " in ln else ""
            out.append(d)
    return out


def write_replay(prop, calls, rej, extra=None):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d-%d.json" % (prop, SEED, int(time.time() * 1000) % 10 ** 9))
    json.dump({"property": prop, "rejections": rej, "sessions": [[c.dump() for c in s] for s in calls], "extra": extra or {}}, open(p, "w"))
    return p


def confirm(sessions, results, si, ci, facet, mt=False):
    """a crash or hang that could come from outside (killed for memory, a stalled machine) has to happen again"""
    r = results[si][ci]
    if facet == "crash" and "rc=-9" not in r.msg and "rc=-15" not in r.msg:
        return True
    if facet not in ("crash", "hang"):
        return True
    for cand in ([sessions[si]], [s for s in sessions[:si + 1] if s[0].api == sessions[si][0].api]):
        rr = run_sessions(cand, mt=mt, stall=90.0)
        if rr[-1][ci].crash:
            return True
    return False


def evaluate(sessions, st, facets, prop=None, mt=False, envbase=None):
    """run, judge; returns the list of confirmed violations [(sessions to replay, rejection, result)]"""
    prop = prop or PROP
    results = run_sessions(sessions, mt=mt, envbase=envbase)
    rej, amb, (tr, ds) = judge(sessions, results)
    st.states += ds
    st.transitions += tr
    st.traces += len(sessions)
    st.calls += sum(len(s) for s in sessions)
    st.amb += len(amb)
    for s, rs in zip(sessions, results):
        for c, r in zip(s, rs):
            st.fns[c.api + ":" + c.fn] += 1
            st.kinds[r.ek] += 1
    if len(st.samples) < 3:
        for s, rs in zip(sessions[:3], results):
            st.samples.append({"calls": [{"api": c.api, "fn": c.fn, "env": c.env, "args": [short(a) for a in c.args],
                                          "outcome": r.ek, "result": [[o[1], o[2], list(o[3][:4])] for o in r.outs]} for c, r in zip(s, rs)]})
    out = []
    for si, ci, f, msg in sorted(rej, key=lambda x: x[2] == "hang"):
        if f == "hang" and out:
            continue        # one confirmed violation is enough, and hangs take long to confirm
        if f in facets and confirm(sessions, results, si, ci, f, mt):
            out.append((si, ci, f, msg))
        elif os.environ.get("VERIF_DEBUG"):
            log("other facet:", f, msg, sessions[si][ci].fn)
    v = []
    for si, ci, f, msg in out:
        api = sessions[si][0].api
        pre = [s for s in sessions[:si + 1] if s[0].api == api and not s[0].fresh] if not sessions[si][0].fresh else [sessions[si]]
        results[si][ci].mt = mt
        v.append((pre, (len(pre) - 1, ci, f, msg), results[si][ci]))
    return v


def short(a):
    return [a.kind, a.r, a.c, [round(x, 6) for x in a.v[:4]], a.s]


def report(vs):
    """print one VIOLATION line per distinct (function, facet); known findings are printed as such"""
    kn = known()
    seen, bad = set(), 0
    for pre, (si, ci, f, msg), r in vs:
        c = pre[si][ci]
        k = (c.api, c.fn, f)
        if k in seen:
            continue
        seen.add(k)
        hit = [x for x in kn if x.get("property") == PROP and x.get("fn", c.fn) == c.fn and x.get("facet", f) == f and x.get("api", c.api) == c.api]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (PROP, hit[0]["text"]))
            continue
        bad += 1
        if bad > 8:
            continue
        p = write_replay(PROP, pre, [[si, ci, f, msg]], {"mt": r.mt})
        print("# %s %s (%s): %s: %s [%s]" % (PROP, c.fn, c.api, f, msg[:300], r.msg[:200]))
        print("VIOLATION property=%s replay=%s" % (PROP, p))
        sys.stdout.flush()
    return bad


def evidence(st, bad):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"states": st.states, "transitions": st.transitions, "traces_validated_against_impl": st.traces,
           "calls_recorded": st.calls, "calls_per_function": dict(st.fns), "outcomes": dict(st.kinds),
           "calls_left_undecided_at_rounding_boundaries": st.amb, "models": st.models, "samples": st.samples[:3] or ["none"]}
    json.dump({"property": PROP, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
               "assumptions": ["results are compared with relative tolerance 1e-9 (1e-8 or 1e-7 for FFT and analytic functions, 1e-5 in single precision)",
                               "calls whose outcome hangs on the last bits of a double are counted as undecided"],
               "wall_s": round(time.time() - T0, 2), "violations": bad}, open(os.path.join(d, PROP + ".json"), "w"), indent=1)


QUICK_N = {"S01": 128, "S02": 80, "S03": 160, "S04": 400, "S05": 16, "S06": 18, "A01": 80, "A02": 20, "A03": 20, "A04": 48,
           "D01": 60, "D02": 60, "D03": 56, "C01": 100, "C02": 60, "C03": 200, "C04": 70, "M01": 90, "G01": 120, "G02": 130,
           "F01": 300, "F02": 300}


LEMMAS = {"G01": ("S01", "S04"), "G02": ("G02", "D01", "D03"), "C03": ("C01",), "C05": ("C01",), "D04": ("D02",), "V02": ("C02",)}
NO_LEMMAS = {"T01", "T02", "T03", "V01", "B01", "B02", "B03"}


def lemmas(st):
    """the laws the specification's operators must obey (spec/Lemmas.tla), explored in full"""
    for g in () if PROP in NO_LEMMAS else LEMMAS.get(PROP, (PROP,)):
        cfg = os.path.join(BUILD, "lemmas-%s-%d.cfg" % (g, os.getpid()))
        os.makedirs(BUILD, exist_ok=True)
        open(cfg, "w").write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\nCONSTANT Group = "%s"\n' % g)
        rc, out, (tr, ds) = tlc("Lemmas", cfg=cfg)
        os.unlink(cfg)
        if rc != 0:
            raise CheckError("Lemmas.tla, group %s: %s" % (g, out[out.find("Error"):][:1500]))
        st.models.append({"module": "Lemmas", "group": g, "states": ds, "invariants": "Inv"})
        st.states += ds
        st.transitions += tr


def main():
    st = Stats()
    lemmas(st)
    if PROP in ("F01", "F02"):
        build_sigstate()
    elif PROP in ("B02", "B03"):
        import gateways
        f = getattr(sc, "run_" + PROP)
        f.fns, lost = gateways.build_gateways("mex" if PROP == "B02" else "jl")
        st.models.append({"gateways_built": f.fns, "gateways_that_do_not_compile_and_are_not_judged": lost})
    else:
        build(sc.TARGETS[PROP], mt=PROP in ("T01", "T02", "T03"), cl=PROP in ("G01", "G02"))
    bad = 0
    facets = sc.FACETS[PROP]
    vs = []
    mod = getattr(sc, "run_" + PROP, None)
    rnd = 0
    while True:
        rng = random.Random("%s/%d/%d" % (PROP, SEED, rnd))
        if mod:
            vs += mod(rng, TIER, st, evaluate, facets, rnd)
        else:
            ss = getattr(sc, "s_" + PROP)(rng, QUICK_N.get(PROP, 5))
            vs += evaluate(ss if PROP in ("F01", "F02") else sc.families(rng, ss), st, facets)
        rnd += 1
        if vs or TIER != "thorough" or time.time() - T0 > BUDGET:
            break
    bad = report(vs)
    evidence(st, bad)
    log("%s: %d calls in %d traces, %d undecided, %d states; outcomes %s; %.1fs" % (PROP, st.calls, st.traces, st.amb, st.states, dict(st.kinds), time.time() - T0))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    try:
        main()
    except CheckError as e:
        print("ERROR: " + str(e)[:3000])
        sys.exit(2)
