"""Per-property scenario sets: which calls, in which sessions, a check records for validation against the specification."""
import random
import gen
from vlib import *

SINGLE = ["dreamline", "dreamrect", "dreamcirc", "dreamcylind", "dreamsphere"]
FOCUS = ["dreamrect_f", "dreamcirc_f"]
ARRAY = ["dream_arr_rect", "dream_arr_circ", "dream_arr_cylind"]
SIR = SINGLE + FOCUS + ARRAY + ["dream_arr_annu"]
CONV = ["conv_p", "fftconv_p", "fftconv_ola"]
CONVS = CONV + ["sum_fftconv"]
SUB = ["copy_p", "add_p"]
AUX = ["dream_att", "dream_apodwin"]
DAS = ["das", "das:das", "das_f:das"]
ANALYTIC = ["rect_sir", "circ_sir", "scirc_sir"]
OCT_ALL = SIR + ["das"] + CONVS + SUB + ANALYTIC + ["dream_att", "dream_apodwin"]
PY_ALL = SIR + ["das", "das_f", "fftconv_p"]


def targets(octs=(), pys=()):
    return ["oct_" + f for f in octs] + ["py_" + f for f in pys]


TARGETS = {
    "S01": targets(SINGLE[:3], SINGLE[:3]), "S02": targets(FOCUS, FOCUS), "S03": targets(SINGLE[3:], SINGLE[3:]),
    "S04": targets(ANALYTIC), "S05": targets(SIR + ["dream_att"], SIR), "S06": targets(SIR, SIR),
    "A01": targets(ARRAY, ARRAY), "A02": targets(ARRAY, ARRAY), "A03": targets(ARRAY + ["dream_apodwin"], ARRAY),
    "A04": targets(["dream_arr_annu"], ["dream_arr_annu"]),
    "D01": targets(["das"], ["das", "das_f"]), "D02": targets(["das"], ["das", "das_f"]), "D03": targets(["das"], ["das", "das_f"]),
    "D04": targets(["das"], ["das", "das_f"]),
    "C01": targets(["conv_p", "fftconv_p"], ["fftconv_p"]), "C02": targets(CONVS), "C03": targets(["fftconv_ola", "conv_p"]),
    "C04": targets(["sum_fftconv"]), "C05": targets(["fftconv_p", "fftconv_ola", "sum_fftconv"], ["fftconv_p"]),
    "M01": targets(SUB),
    "T01": targets([f for f in OCT_ALL if f not in AUX], PY_ALL), "T02": targets([f for f in OCT_ALL if f not in AUX], PY_ALL),
    "T03": targets(OCT_ALL, PY_ALL), "V01": targets(OCT_ALL, PY_ALL), "V02": targets(OCT_ALL, PY_ALL),
    "G01": targets(["dreamrect", "dreamcirc", "rect_sir"]), "G02": targets(["das", "das_uni"], ["das", "das_f"]),
    "B01": targets(SIR + ["das", "fftconv_p"], PY_ALL), "B02": [], "B03": [], "F01": [], "F02": [],
}

BASE = {"resp", "back", "size", "fail", "oob", "crash", "hang", "code", "warn", "intr"}
FACETS = {p: set(BASE) for p in TARGETS}
FACETS["V01"] |= {"accept"}
FACETS["V02"] |= {"inputs", "repeat", "env"}
FACETS["T01"] |= {"repeat", "alive", "env"}
FACETS["T02"] |= {"alive", "sig", "env"}
FACETS["T03"] |= {"sig"}
FACETS["C02"] |= {"env"}
FACETS["M01"] |= {"env", "accept"}
FACETS["C05"] |= {"accept"}
FACETS["D04"] |= {"repeat", "accept"}
FACETS["B01"] |= {"pair", "accept"}
FACETS["B02"] |= {"accept", "sig", "inputs"}
FACETS["B03"] |= {"accept", "sig", "inputs"}
FACETS["G01"] |= {"inputs"}
FACETS["G02"] |= {"inputs", "accept", "repeat"}

APIS = ("oct", "py")
THREADS = ["", "", "1", "2", "3", "4", "5", "7", "8", "64"]


def T(rng):
    return {"DREAM_NUM_THREADS": rng.choice(THREADS)}


def call_sir(rng, fn, api, alpha=0.0, **kw):
    if fn in SINGLE:
        return gen.single(rng, fn, api, alpha, **kw)
    if fn in FOCUS:
        return gen.focused(rng, fn, api, alpha=alpha, **kw)
    if fn in ARRAY:
        return gen.array(rng, fn, api, alpha=alpha, **kw)
    kw.pop("nmax", None)
    return gen.annular(rng, api, alpha=alpha, **kw)


LVL = [None, "stop", "warn", "ignore"]


def sir_mix(rng, fns, n, apis=APIS, **kw):
    """n calls of every function: mostly inside the window, a few beyond it, one with many points, one with a fine grid"""
    out = []
    for k in range(n):
        for i, fn in enumerate(fns):
            for api in apis:
                o = dict(kw)
                o["lvl"] = rng.choice(LVL)
                o["env"] = T(rng)
                x = k % 8
                if x == 3:
                    o["No"] = rng.choice([16, 33, 60])
                    o["nmax"] = 4
                elif x == 5:
                    o["spill"] = True
                    o["lvl"] = rng.choice(["ignore", "warn", "stop"])
                elif x == 6:
                    o["nmax"] = 40
                    o["No"] = 2
                    o["ntmax"] = 400
                elif x == 7:
                    o["ntmax"] = 6
                elif k % 32 == 12 and api == apis[(i + k // 32) % len(apis)]:        # more samples or points than 16 bits count
                    o.update(No=1, ntmax=200000, nmax=3)
                elif k % 32 == 28 and api == apis[(i + k // 32) % len(apis)]:
                    o.update(No=rng.choice([1000, 2500]), nmax=2, ntmax=8)
                elif k % 16 == 12:      # large inputs
                    b = rng.randrange(3)
                    if b == 0:
                        o.update(No=rng.choice([100, 128, 257]), nmax=2, ntmax=12)
                    elif b == 1:
                        o.update(No=1, ntmax=3000, nmax=8)
                    elif fn in ARRAY:
                        o.update(nel=rng.choice([17, 33, 64, 65, 100, 130]), nmax=2, No=2)
                    else:
                        o.update(No=2, nmax=90, ntmax=300)
                if x != 6 and k % 16 != 12:
                    o = att(rng, **o)
                out.append([call_sir(rng, fn, api, **o)])
                if x == 5:      # the other levels as well
                    for l in [l for l in ("ignore", "warn", "stop") if l != o["lvl"]]:
                        o = att(rng, **dict(o, lvl=l, env=T(rng)))
                        out.append([call_sir(rng, fn, api, **o)])
    return out


def families(rng, sessions, p=.2):
    """some of the single calls together with variations of themselves in one session, some with arguments in other representations"""
    out = []
    for s in sessions:
        c = s[0]
        if len(s) == 1 and not any(a.kind == "REF" for a in c.args) and not c.fresh and rng.random() < p and sum(len(a.v) for a in c.args) < 3000:
            s = gen.family(rng, c)
        elif rng.random() < .15:
            s = [x if x.fn[0] == "@" or x.fresh else gen.disguise(rng, x, rng.choice([.2, .8])) for x in s]
        out.append(s)
    return out


def att(rng, p=.15, **kw):
    """now and then with attenuation, which the code computes along other paths; short windows then"""
    if rng.random() < p:
        kw["alpha"] = rng.choice([gen.u(rng, .1, 8), gen.u(rng, .5, 200)])
        kw["ntmax"] = 30
        if kw.get("nmax") and kw["nmax"] > 8:
            kw["nmax"] = 8
        if kw.get("No") and kw["No"] > 6:
            kw["No"] = 6
    return kw


def s_S01(rng, n):
    return sir_mix(rng, SINGLE[:3], n)


def s_S02(rng, n):
    out = []
    for k in range(n):
        for fn in FOCUS:
            for api in APIS:
                for met in ("off", "x", "y", "xy", "x+y"):
                    sp = k % 5 == 4
                    out.append([gen.focused(rng, fn, api, met, lvl=rng.choice(["ignore", "warn", "stop"]) if sp else rng.choice(LVL),
                                            env=T(rng), spill=sp, **att(rng, nmax=rng.choice([3, 10, 24]), No=rng.choice([None, None, None, 20]) if k % 4 == 2 else None))])
    return out


def s_S03(rng, n):
    return sir_mix(rng, SINGLE[3:], n)


def s_S04(rng, n):
    out = []
    for k in range(n):
        for fn in ANALYTIC:
            out.append([gen.analytic(rng, fn, No=40 if k % 9 == 8 else 1 if k == 50 else 700 if k == 51 else None,
                                     nt={50: rng.choice([33000, 70000]), 51: 5}.get(k), env=T(rng))])
    return out


def s_S05(rng, n):
    out = []
    for k in range(n):
        for fn in SIR:
            for api in APIS:
                alpha = 0.0 if k % 6 == 5 else rng.choice([gen.u(rng, 0.01, 0.5), gen.u(rng, .5, 10), gen.u(rng, 10, 100)])
                nt = rng.choice([None, None, 6])
                o = dict(ntmax=rng.choice([64, 75, 40, 6, 128]), env=T(rng), spill=k % 5 == 3, lvl=rng.choice(LVL))
                if o["spill"]:
                    o["lvl"] = rng.choice(["ignore", "warn", "stop"])
                if fn != "dream_arr_annu":
                    o["nmax"] = 2 if fn in ARRAY else 4
                if k % 4 == 2:
                    o["No"] = 12
                out.append([call_sir(rng, fn, api, alpha, **o)])
        out += [[gen.att(rng, No=None if k % 3 else 17)] for _ in range(5)]
    return out


def s_S06(rng, n):
    out = []
    for k in range(n):
        for fn in SIR:
            for api in APIS:
                for lvl in ("ignore", "warn", "stop"):
                    o = dict(lvl=lvl, env=T(rng), spill=rng.random() < .75, No=rng.choice([1, 2, 3, 5, 9, 14]), ntmax=rng.choice([20, 60, 120]))
                    if fn != "dream_arr_annu":
                        o["nmax"] = rng.choice([2, 5])
                    alpha = gen.u(rng, .1, 3) if rng.random() < .3 else 0.0
                    if alpha:
                        o["ntmax"] = 30
                    c = call_sir(rng, fn, api, alpha, **o)
                    if rng.random() < .5:
                        focus_spill(rng, c)
                    elif rng.random() < .5:
                        push_out(rng, c)
                    out.append([c])
    return out


def focus_spill(rng, c):
    """a per-point delay that leaves the window for one point only"""
    d = c.args[DELAY_ARG(c.fn)]
    if d.r * d.c > 1:
        i = rng.randrange(d.r * d.c)
        dt = sampling(c).v[2]
        nt = sampling(c).v[3]
        d.v[i] += rng.choice([-1, 1]) * gen.u(rng, .2, 1.5) * nt * dt


def push_out(rng, c):
    """some of the points so far away that their responses miss the window"""
    i = 3 if c.fn in DAS else 0
    P = c.args[i]
    if P.r < 2:
        return c
    far = 1000 * max(abs(x) for x in P.v) + 1000
    k = rng.randint(1, P.r - 1) if rng.random() < .4 else 1
    for j in rng.sample(range(P.r), k) if rng.random() < .7 else range(k):
        P.v[2 * P.r + j] = far * gen.u(rng, 1, 2)
    return c


def DELAY_ARG(fn):
    return 4 if fn in ARRAY else 3


def sampling(c):
    return c.args[3 if c.fn in ARRAY else 2]


def s_A01(rng, n):
    out = sir_mix(rng, ARRAY, n)
    for k in range(max(1, n // 3)):
        for fn in ARRAY:        # the same array listed in another order
            c = gen.array(rng, fn, rng.choice(APIS), fmet="off" if k % 2 else None, smet="off", amet=rng.choice(AMET_NOUD), nel=rng.choice([3, 5, 8, 16]),
                          nmax=3, env=T(rng), gridkind="grid" if k % 3 == 0 else None)
            if c.args[6].s == "ud":
                continue
            d = Call.load(c.dump())
            G = d.args[2]
            p = list(range(G.r))
            rng.shuffle(p)
            G.v = [G.v[j * G.r + i] for j in range(3) for i in p]
            out += [[c], [d]]
    return out


AMET_NOUD = [m for m in gen.AMET if m != "ud"]


def s_A02(rng, n):
    out = []
    combos = [(f, s) for f in gen.FMET for s in gen.SMET]
    for k in range(n):
        for i, (f, s) in enumerate(combos):
            for j, fn in enumerate(ARRAY):
                api = APIS[(i + j + k) % 2]
                sp = rng.random() < .08
                out.append([gen.array(rng, fn, api, fmet=f, smet=s, nmax=2, nel=rng.choice([1, 2, 3, 5, 9] if rng.random() < .95 else [17, 40]), env=T(rng), spill=sp,
                                      lvl=rng.choice(["ignore", "warn", "stop"]) if sp else rng.choice(LVL), **att(rng))])
    return out


def s_A03(rng, n):
    out = []
    for k in range(n):
        for m in gen.AMET:
            for fn in ARRAY:
                for api in APIS:
                    out.append([gen.array(rng, fn, api, amet=m, fmet=rng.choice(["off", "xy", "ud"]), smet=rng.choice(["off", "x"]), nmax=2,
                                          nel=rng.choice([1, 2, 4, 7, 12] if rng.random() < .95 else [20, 48]), env=T(rng), **att(rng, .25))])
            out.append([gen.apodwin(rng, m, n=rng.choice([1, 2, 3, None, None, 200]))])
    return out


def s_A04(rng, n):
    out = []
    for k in range(n):
        for f in ("off", "on", "ud", "x", "y", "xy", "x+y"):
            for api in APIS:
                sp = k % 4 == 2
                out.append([gen.annular(rng, api, fmet=f, env=T(rng), rings=rng.choice([1, 2, 3, 4, 7]), spill=sp, tight=f == "ud" and k % 2 == 0,
                                        lvl=rng.choice(["ignore", "warn", "stop"]) if sp or f == "ud" else rng.choice(LVL), **att(rng, No=11 if k % 5 == 4 else None))])
        for m in gen.AMET:
            out.append([gen.annular(rng, rng.choice(APIS), amet=m, env=T(rng), rings=rng.choice([1, 2, 3, 5] if rng.random() < .9 else [10, 20]), **att(rng))])
    return out


def das_any(rng, met, **kw):
    api, prec = rng.choice([("oct", "D"), ("oct", "F"), ("py", "D"), ("py", "F"), ("oct", "D"), ("py", "D")])
    ins = rng.random() < .7
    kw.setdefault("env", T(rng))
    kw.setdefault("lvl", rng.choice(["ignore", "ignore", "warn", "stop"]) if not ins else rng.choice(LVL))
    return gen.das(rng, api, met, prec, inside=ins, **kw)


def big_das(rng, k, sz):
    if k % 200 == 110:
        sz.update(nT=2, nR=2, No=1, K=rng.choice([33000, 70000]))
    if k % 200 == 111:
        sz.update(nT=1, nR=2, No=1500, K=9)
    if k % 200 == 112:
        sz.update(nT=rng.choice([60, 260]), nR=20, No=1, K=9)


def s_D01(rng, n):
    out = []
    for k in range(n * 20):
        sz = gen.das_size(rng)
        if k % 10 == 9:
            sz["No"] = rng.choice([50, 100])
        if k % 10 == 8:
            sz["nT"] = rng.choice([24, 64, 65, 130, 257])
        if k % 7 == 6:
            sz["K"] = rng.choice([400, 400, 1500])
        if k % 40 == 17:
            sz.update(nT=rng.choice([20, 33]), nR=rng.choice([20, 33]), No=2, K=30)
        if k % 40 == 37:
            sz.update(nT=2, nR=2, No=rng.choice([128, 300]), K=30)
        big_das(rng, k, sz)
        c = das_any(rng, "tfm" if k % 9 == 8 else "saft", size=sz, grempty=k % 9 == 8)
        out.append([c])
    return out


def s_D02(rng, n):
    out = []
    for k in range(n * 20):
        sz = gen.das_size(rng)
        if k % 10 == 9:
            sz["No"] = rng.choice([40, 70])
        if k % 10 == 8:
            n1, n2 = rng.choice([40, 65, 70, 100, 130, 257]), rng.choice([1, 2, 3])
            sz.update(nT=n2, nR=n1, No=rng.choice([1, 2]), K=max(sz["K"], 40))
            if rng.random() < .3:
                sz.update(nT=n1, nR=n2)
        if k % 7 == 6:
            sz["K"] = rng.choice([400, 400, 1500])
        if k % 40 == 17:
            sz.update(nT=rng.choice([20, 33]), nR=rng.choice([20, 33]), No=2, K=30)
        if k % 40 == 37:
            sz.update(nT=2, nR=2, No=rng.choice([128, 300]), K=30)
        big_das(rng, k, sz)
        out.append([das_any(rng, "tfm", size=sz)])
    return out


def s_D03(rng, n):
    out = []
    for k in range(n * 20):
        sz = gen.das_size(rng)
        if k % 10 == 9:
            sz["No"] = rng.choice([40, 70])
        if k % 10 == 8:
            n1, n2 = rng.choice([40, 65, 70, 100, 130, 257]), rng.choice([1, 2, 3])
            sz.update(nT=n2, nR=n1, No=rng.choice([1, 2]), K=max(sz["K"], 40))
            if rng.random() < .3:
                sz.update(nT=n1, nR=n2)
        if k % 7 == 6:
            sz["K"] = rng.choice([400, 400, 1500])
        if k % 40 == 17:
            sz.update(nT=rng.choice([20, 33]), nR=rng.choice([20, 33]), No=2, K=30)
        if k % 40 == 37:
            sz.update(nT=2, nR=2, No=rng.choice([128, 300]), K=30)
        big_das(rng, k, sz)
        out.append([das_any(rng, ["rca", "rca_coltx", "rca_rowtx"][k % 3], size=sz)])
    return out


def s_C01(rng, n):
    out = []
    for k in range(n):
        for vec in ("mat", "row", "col"):
            for f, api in (("conv_p", "oct"), ("fftconv_p", "oct"), ("fftconv_p", "py")):
                dims = None
                if k % 5 == 4:
                    dims = rng.choice([(1, 30, 5), (200, 2, 3), (3, 2, 200), (64, 17, 64), (1, 1, 1), (1, 5, 1), (7, 1, 9), (1500, 2, 40), (20, 1, 900), (3, 150, 2)])
                if k in (22, 23) and f == ("conv_p" if vec == "row" else "fftconv_p"):
                    dims = rng.choice([(70000, 1, 2), (2, 1, 35000), (33000, 1, 3), (2, 1200, 2)])
                out.append([gen.conv(rng, f, api, dims=dims, vec=vec, env=T(rng))])
    return out


def inplace_session(rng, f, modes, wisdom=False):
    """one output matrix, several in-place calls on it, another variable watching"""
    while True:
        if f == "sum_fftconv":
            c, sz = gen.inplace(rng, f, "Y", None)
        else:
            c, sz = gen.inplace(rng, f, "Y", modes[0], env=T(rng))
        if sz[0] * sz[1] > 1:
            break
    M = c.args[0].r
    N = sz[1]
    K = sz[0] - M + 1
    out = [gen.setvar("Y", gen.rnd(rng, *sz)), gen.setvar("Z", gen.rnd(rng, *sz)), c]
    for m in modes[1:]:
        d, s2 = gen.inplace(rng, f, "Y", m, dims=(M, N, K), env=T(rng), vec=rng.choice(["mat", "row", "col"]) if K > 1 and N > 1 else "col")
        if s2 == sz:
            out.append(d)
    return out + [gen.getvar("Y"), gen.getvar("Z")]


def rescaled(rng, s, p=.2):
    """now and then the session with operands that are all small or all large"""
    if rng.random() < p:
        f = rng.choice([1e-10, 1e-5, 1e6])
        for c in s:
            if c.fn == "@set":
                c.args[1].v = [x * f * f for x in c.args[1].v]
            elif c.fn.split(":")[0] in CONVS:
                for a in c.args[:2]:
                    a.v = [x * f for x in a.v]
    return s


def s_C02(rng, n):
    out = []
    for k in range(n):
        for f in CONV:
            for m in ("=", "+=", "-=", None):
                out.append(inplace_session(rng, f, [m] + [rng.choice(["=", "+=", "-="]) for _ in range(rng.choice([0, 1, 3]))]))
            out.append([gen.conv(rng, f, env=T(rng))])
        s = inplace_session(rng, "sum_fftconv", [None])
        for c in s:
            if c.fn == "sum_fftconv":
                c.env = T(rng)
        out.append(s)
        # with wisdom as the last argument
        for f in ("fftconv_p", "fftconv_ola"):
            c0 = gen.conv(rng, f, nout=2, store="W")
            for m in ("+=", "-=", "="):
                c, sz = gen.inplace(rng, f, "Y", m, wisdom="W", env=T(rng))
                if sz[0] * sz[1] > 1:
                    out.append([c0, gen.setvar("Y", gen.rnd(rng, *sz)), c, gen.getvar("Y")])
    return [rescaled(rng, s) for s in out]


def s_C03(rng, n):
    out = []
    for k in range(n):
        M, N, K = gen.cdims(rng)
        for b in sorted(set([1, 2, M, max(1, M - 1), M // 2 + 1, rng.randint(1, M)])):
            out.append([gen.conv(rng, "fftconv_ola", dims=(M, N, K), vec=rng.choice(["mat", "row", "col"]), block=b, env=T(rng))])
    out.append([gen.conv(rng, "fftconv_ola", dims=(300, 3, 17), block=rng.choice([7, 64, 100, 299]), env=T(rng))])
    out.append([gen.conv(rng, "fftconv_ola", dims=(2000, 2, 50), block=rng.choice([33, 128, 640, 1999]), env=T(rng))])
    out.append([gen.conv(rng, "fftconv_ola", dims=(70000, 1, 2), block=rng.choice([999, 33000, 69999]), env=T(rng))])
    out.append([gen.conv(rng, "fftconv_ola", dims=(10, 120, 4), block=rng.choice([3, 4, 7]), env=T(rng))])
    return [rescaled(rng, s, .1) for s in out]


def run_C03(rng, tier, st, evaluate, facets, rnd):
    out = []
    if rnd == 0:
        for w in (False, True):
            cfg = os.path.join(BUILD, "ola-%d.cfg" % os.getpid())
            open(cfg, "w").write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\n%sCONSTANTS MaxM = %d MaxK = %d Words = %s\n"
                                 % ("" if w else "PROPERTY Ends\n", 7 if w else 8, 4 if w else 6, "TRUE" if w else "FALSE"))
            rc, o, (tr, ds) = tlc("Ola", cfg=cfg)
            os.unlink(cfg)
            if rc != 0:
                raise CheckError("Ola.tla: " + o[-1500:])
            st.models.append({"module": "Ola(words)" if w else "Ola", "states": ds, "invariants": "Progress Beyond Done Partial" + ("" if w else " Ends")})
            st.states += ds
            st.transitions += tr
        shapes = sorted(set(re.findall(r"WORD\|<<(\d+), (\d+), (\d+)>>([^\"\n]*)", o)))
        st.models[-1]["shapes"] = len(shapes)
        for M, K, b, mode in shapes:
            dims, N = None, rng.choice([1, 2, 3, 5])
            if M == "1" and K == "1" and N == 1:
                N = 2           # a 1x1 output cannot be modified in place
            dims, vec = (int(M), N, int(K)), rng.choice(["mat", "row", "col"] if N > 1 and K != "1" else ["col"])
            if mode == "new":
                out.append([gen.conv(rng, "fftconv_ola", dims=dims, vec=vec, block=int(b), env=T(rng))])
            else:
                c, sz = gen.inplace(rng, "fftconv_ola", "Y", mode, dims=dims, vec=vec, block=int(b), env=T(rng))
                out.append([gen.setvar("Y", gen.rnd(rng, *sz)), c, gen.getvar("Y")])
    return evaluate(out + families(rng, s_C03(rng, 200)), st, facets)


def s_C04(rng, n):
    out = []
    for k in range(n * 6):
        dims = rng.choice([(1, 3, 1), (1, 1, 4), (60, 2, 5), (4, 20, 3), (600, 1, 30), (3, 100, 2)]) if k % 6 == 5 else None
        out.append([gen.sumconv(rng, dims, planes=rng.choice([2, 3, 4, 9] if dims is None else [2, 5, 30]), env=T(rng))])
        if k == 50:
            out.append([gen.sumconv(rng, rng.choice([(70000, 1, 2), (2, 1, 66000), (2, 600, 2)]), planes=2, env=T(rng))])
        if k % 3 == 0:
            s = inplace_session(rng, "sum_fftconv", [None])
            for c in s:
                if c.fn == "sum_fftconv":
                    c.env = T(rng)
            out.append(s)
    return [rescaled(rng, s, .1) for s in out]


def submat_session(rng, f):
    while True:
        shape = rng.choice([(rng.randint(1, 12), rng.randint(1, 12)), (1, rng.randint(2, 30)), (rng.randint(2, 30), 1), (rng.randint(2, 9), 40)] + [(rng.randint(100, 200), rng.randint(20, 60))] * (rng.random() < .1)
                           + [(300, 250), (2, 33000)] * (rng.random() < .01))
        if shape[0] * shape[1] > 1:
            break
    s = list(gen.submat(rng, f, "A", shape, T(rng), full=rng.random() < .15))
    s.insert(1, gen.setvar("Z", gen.rnd(rng, 3, 4)))
    for _ in range(rng.choice([0, 1, 2])):
        s.append(gen.submat(rng, rng.choice(SUB), "A", shape, T(rng))[1])
    return s + [gen.getvar("A"), gen.getvar("Z")]


def s_M01(rng, n):
    import malform
    out = []
    for k in range(n * 4):
        for f in SUB:
            out.append(submat_session(rng, f))
            s = list(gen.submat(rng, f, "A", (rng.randint(2, 9), rng.randint(2, 9)), T(rng)))
            s[1] = malform.submat(rng, s[1], s[0].args[1])
            out.append(s + [gen.getvar("A")])
    return out


# ---------------------------------------------------------------- histories enumerated by TLC

def printed_words(out):
    return [re.findall(r"[\w/]+", w) for w in sorted(set(re.findall(r'^"?WORD\|(.*)$', out, re.M)))]


def words(kind, n):
    """all histories of abstract operations of the model Histories.tla"""
    cfg = os.path.join(BUILD, "hist-%s-%d-%d.cfg" % (kind, n, os.getpid()))
    os.makedirs(BUILD, exist_ok=True)
    open(cfg, "w").write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\nCONSTANTS\n Kind = "%s"\n N = %d\n' % (kind, n))
    rc, out, st = tlc("Histories", cfg=cfg)
    os.unlink(cfg)
    if rc != 0:
        raise CheckError("Histories.tla: " + out[-1500:])
    return printed_words(out), st


def any_call(rng, api, fn, env=None, lvl=None):
    """a small valid call of any function that takes no session variable"""
    if fn in SIR:
        o = dict(env=env, No=rng.choice([1, 2, 5]), ntmax=40, lvl=lvl)
        if fn != "dream_arr_annu":
            o["nmax"] = 3
        return call_sir(rng, fn, api, rng.choice([0.0, 0.0, 0.0, 1.5]), **o)
    if fn in ("das", "das_f"):
        return gen.das(rng, api, None, "F" if fn == "das_f" else rng.choice("DDF") if api == "oct" else "D",
                       size=dict(nT=rng.randint(1, 4), nR=rng.randint(1, 4), No=rng.randint(1, 5), K=rng.randint(4, 30)), env=env, lvl=lvl)
    if fn in CONV:
        return gen.conv(rng, fn, api, dims=(rng.randint(1, 9), rng.randint(1, 5), rng.randint(1, 7)), env=env)
    if fn == "sum_fftconv":
        return gen.sumconv(rng, (rng.randint(1, 6), rng.randint(1, 4), rng.randint(1, 5)), env=env)
    if fn in ANALYTIC:
        return gen.analytic(rng, fn, No=rng.choice([1, 3]), nt=20, env=env)
    if fn == "dream_att":
        return gen.att(rng, nt=20)
    if fn == "dream_apodwin":
        return gen.apodwin(rng)
    raise ValueError(fn)


def pure_fns(api):
    return [f for f in (OCT_ALL if api == "oct" else PY_ALL) if f not in SUB]


def das_setup(rng, w, api, base):
    """the concrete call of an abstract setup: method/precision/K/No/nT/nR, each size one of two values"""
    met, prec, k, no, nt, nr, kind = w.split("/")
    size = dict(K=base["K"][int(k)], No=base["No"][int(no)], nT=base["nT"][int(nt)], nR=base["nR"][int(nr)])
    lvl = {"ok": None, "oob": "stop", "warn": "warn"}.get(kind, None)
    c = gen.das(rng, api, met, prec, size=size, inside=kind == "ok" or kind == "bad", lvl=lvl, env=T(rng), grempty=False)
    if kind == "bad":
        c.args[0] = gen.rnd(rng, size["K"], c.args[0].c + 1, prec)
    return c


def run_D04(rng, tier, st, evaluate, facets, rnd):
    ws, (tr, ds) = words("das", 2)
    st.models.append({"module": "Histories(das)", "histories": len(ws), "states": ds})
    st.states += ds
    st.transitions += tr
    rng.shuffle(ws)
    # two accepted calls which differ in one feature: every one of them, the size growing and shrinking; and of the others a sample
    one = [w for w in ws if all(x.split("/")[6] == "ok" for x in w) and sum(a != b for a, b in zip(*(x.split("/") for x in w))) == 1]
    if tier != "thorough":
        ws = [list(w) + [g] for w in one for g in ("grow", "shrink")] + [list(w) + [None] for w in ws[:220]]
    else:
        ws = [list(w) + [rng.choice(["grow", "shrink"])] for w in one] + [list(w) + [None] for w in ws[rnd * 700:(rnd + 1) * 700] or ws[:700]]
    out = []
    for *w, way in ws:
        api = rng.choice(APIS) if way is None or rng.random() < .1 else "oct"
        base = {k: rng.sample(range(lo, lo + 5), 2) for k, lo in (("K", 20), ("No", 2), ("nT", 2), ("nR", 2))}
        if way:
            for k in base:
                base[k].sort(reverse=way == "shrink")
        a = das_setup(rng, w[0], api, base)
        b = das_setup(rng, w[1], api, base)
        s = [a, b]
        if way and rng.random() < .8:
            out.append(s)
            continue
        if rng.random() < .5:
            s.append(Call.load(a.dump()))
        if rng.random() < .3:
            s.append(Call.load(b.dump()))
        if rng.random() < .3:       # same setup, other geometry and data
            s.append(das_setup(rng, w[0], api, base))
        if rng.random() < .5:       # one value changed
            s.append(gen.vary(rng, s[-1]))
        out.append(s)
    vs = evaluate(out, st, facets)
    # fresh processes: the very first call, and the first call after a rejected one
    fresh = []
    for *w, _ in (rng.choice(ws) for _ in range(4)):
        base = {"K": (20, 30), "No": (2, 5), "nT": (2, 3), "nR": (3, 4)}
        s = [das_setup(rng, x, rng.choice(APIS), base) for x in w[:1]]
        s[0].fresh = True
        s += [das_setup(rng, w[1], s[0].api, base), Call.load(s[0].dump())]
        fresh.append(s)
    return vs + evaluate(fresh, st, facets)


def near_lengths(rng):
    """convolutions whose lengths are close to each other, one after the other"""
    api = rng.choice(APIS)
    M, N, K = rng.randint(2, 20), rng.randint(1, 4), rng.randint(2, 9)
    out = []
    for _ in range(rng.choice([3, 4, 5])):
        f = rng.choice(["fftconv_p", "fftconv_p", "fftconv_ola", "sum_fftconv"]) if api == "oct" else "fftconv_p"
        m, k = max(2, M + rng.choice([-1, 0, 0, 1, 2])), max(2, K + rng.choice([-1, 0, 0, 1]))
        if rng.random() < .2:
            m, k = k, m
        out.append(gen.sumconv(rng, (m, N, k), env=T(rng)) if f == "sum_fftconv" else gen.conv(rng, f, api, dims=(m, N, k), env=T(rng)))
    return out


def run_C05(rng, tier, st, evaluate, facets, rnd):
    ws, (tr, ds) = words("wisdom", 4)
    st.models.append({"module": "Histories(wisdom)", "histories": len(ws), "states": ds})
    st.states += ds
    st.transitions += tr
    rng.shuffle(ws)
    ws = ws[:220] if tier != "thorough" else (ws[rnd * 600:(rnd + 1) * 600] or ws[:600])
    out = []
    for w in ws:
        dims = [(rng.randint(2, 30), rng.randint(1, 4), rng.randint(1, 12)) for _ in range(2)]
        blk = [rng.randint(1, d[0]) for d in dims]
        f = rng.choice(["fftconv_p", "fftconv_ola", "sum_fftconv", "fftconv_p"])
        s = [gen.setvar("Y0", gen.rnd(rng, dims[0][0] + dims[0][2] - 1, dims[0][1] + 1)), ]
        s = []
        for op in w:
            o, d = op.split("/")
            d = int(d)
            g = f if rng.random() < .6 else rng.choice(["fftconv_p", "fftconv_ola", "sum_fftconv"])
            if o in ("get", "use", "plain", "bad"):
                if g == "sum_fftconv":
                    c = gen.sumconv(rng, dims[d], env=T(rng), wisdom="W" if o == "use" else None)
                else:
                    c = gen.conv(rng, g, dims=dims[d], block=blk[d], env=T(rng), wisdom="W" if o == "use" else None)
                if o == "get":
                    c.nout, c.store = 2, "W"
                elif o == "use" and rng.random() < .3:
                    c.nout = 2
                elif o == "bad":
                    c.args.append(S(rng.choice(["bogus", "", "fftw", "=", "(fftw-3.3.8 broken", "+=", "wisdom"])))
                s.append(c)
            else:           # in place with wisdom
                if g == "sum_fftconv":
                    c, sz = gen.inplace(rng, g, "Y", None, dims=dims[d], wisdom="W", env=T(rng))
                else:
                    c, sz = gen.inplace(rng, g, "Y", rng.choice(["=", "+=", "-="]), dims=dims[d], block=blk[d], wisdom="W", env=T(rng))
                s += [gen.setvar("Y", gen.rnd(rng, *sz)), c]
        out.append(s)
    for _ in range(20):
        out.append([gen.conv(rng, "fftconv_p", "py", env=T(rng)) for _ in range(3)])
        out.append(near_lengths(rng))
    return evaluate(out, st, facets)


def inplace_any(rng, f):
    if f in SUB:
        s = list(gen.submat(rng, f, "A", (rng.randint(2, 5), rng.randint(2, 5))))
        return s
    c, sz = gen.inplace(rng, f, "Y", None if f == "sum_fftconv" else rng.choice(["=", "+=", "-="]), dims=(rng.randint(2, 6), rng.randint(2, 3), rng.randint(2, 4)), vec="col")
    return [gen.setvar("Y", gen.rnd(rng, *sz)), c]


def run_V01(rng, tier, st, evaluate, facets, rnd):
    """every function: every deformation of every argument, with valid calls between; and random malformed calls in the model's histories"""
    import malform
    ws, (tr, ds) = words("valid", 3)
    df, (tr2, ds2) = words("deform", 1)
    st.models += [{"module": "Histories(valid)", "histories": len(ws), "states": ds}, {"module": "Histories(deform)", "histories": len(df), "states": ds2}]
    st.states += ds + ds2
    st.transitions += tr + tr2
    out = []
    for api in APIS:
        fns = OCT_ALL if api == "oct" else PY_ALL
        for fn in fns:
            for _ in range(3 if fn == "fftconv_ola" else 2):
                s = []
                rng.shuffle(df)
                for (w,) in df:
                    i, k = w.split("/")
                    i = int(i) - 1
                    seq = None
                    if fn in SUB or fn in CONVS and api == "oct" and rng.random() < .5:
                        seq = inplace_any(rng, fn)
                        d = malform.deform(seq[1], i, k)
                    else:
                        # all the arguments there are
                        d = malform.deform(any_call(rng, api, fn, T(rng), lvl=rng.choice(LVL[1:])), i, k)
                    if d is None:
                        continue
                    s += [d] if seq is None else [seq[0], d] + ([gen.getvar(seq[0].args[0].s)] if rng.random() < .5 else [])
                    if rng.random() < .12:
                        s += inplace_any(rng, fn) if fn in SUB else [any_call(rng, api, fn, T(rng), lvl=rng.choice(LVL))]
                    if len(s) > 20:
                        out.append(s)
                        s = []
                out.append(s)
            for w in (rng.choice(ws) for _ in range(4)):
                s = []
                for op in w:
                    if fn in SUB:
                        seq = inplace_any(rng, fn)
                        if op == "bad":
                            seq[1] = malform.mutate(rng, seq[1]) if rng.random() < .5 else malform.submat(rng, seq[1], seq[0].args[1])
                            seq.append(gen.getvar("A"))
                        s += seq
                    elif op == "bad" and fn in CONVS and api == "oct" and rng.random() < .4:
                        seq = inplace_any(rng, fn)
                        seq[1] = malform.mutate(rng, seq[1])
                        s += seq + [gen.getvar("Y")]
                    else:
                        c = any_call(rng, api, fn, T(rng), lvl=rng.choice(LVL))
                        s.append(malform.mutate(rng, c) if op == "bad" else c)
                out.append(s)
    return evaluate([s for s in out if s], st, facets)


def run_V02(rng, tier, st, evaluate, facets, rnd):
    """x y x for every pair of functions, inputs watched; repeats bit-identical"""
    ws, (tr, ds) = words("pure", 3)
    st.models.append({"module": "Histories(pure)", "histories": len(ws), "states": ds})
    st.states += ds
    st.transitions += tr
    out = []
    for api in APIS:
        out += [lossy_between(rng, api, x, k) for x in SIR for k in range(8)]
        fns = pure_fns(api)
        for x in fns:
            for y in rng.sample(fns, 12 if tier != "thorough" else len(fns)):
                for w in (rng.choice(ws),):
                    cx, cy = any_call(rng, api, x, T(rng)), any_call(rng, api, y, T(rng))
                    cx2 = any_call(rng, api, x, T(rng))
                    cx, cy = gen.disguise(rng, cx, rng.choice([0, 0, .7])), gen.disguise(rng, cy, rng.choice([0, .5]))
                    s = []
                    for op in w:
                        s.append(Call.load({"x": cx, "y": cy, "z": cx2}[op].dump()))
                    if api == "oct" and rng.random() < .3:
                        s[1:1] = inplace_any(rng, rng.choice(CONVS + SUB))
                    out.append(s)
        for x in fns:
            out.append(gen.family(rng, any_call(rng, api, x, T(rng), lvl=rng.choice(LVL)), 3))
        for x in fns:
            out += argument_changes(rng, api, x)
    rng.shuffle(out)
    return evaluate(out, st, facets)


def argument_changes(rng, api, fn):
    """for every numeric argument: a call by one worker, the call with only this argument changed, in the same memory, and the first again"""
    def base():
        kw = dict(No=2, nmax=3, ntmax=60)
        if fn in ARRAY:
            return gen.array(rng, fn, api, env={"DREAM_NUM_THREADS": 1}, lvl="ignore", nel=rng.choice([3, 4, 6]),
                             fmet=rng.choice(["x", "y", "xy", "x+y", "ud"]), smet=rng.choice(["x", "y", "xy"]), amet=rng.choice(gen.AMET), **kw)
        if fn in SIR:
            return call_sir(rng, fn, api, lvl="ignore", env={"DREAM_NUM_THREADS": 1}, alpha=rng.choice([0.0, 0.0, 1.0]), **kw)
        return any_call(rng, api, fn, {"DREAM_NUM_THREADS": 1})
    out = []
    for i in gen.numeric_args(base()):
        for j in range(9 if fn in ARRAY and i == 2 and fn != "dream_arr_annu" else 2 if fn in SIR + ["das", "das_f"] else 1):
            c = base()
            if i not in gen.numeric_args(c):
                continue
            s = [c, gen.vary(rng, c, i)]
            if rng.random() < .4:
                s.append(gen.vary(rng, s[-1], i))
            out.append(s + [Call.load(c.dump())])
    return out


def lossy_between(rng, api, fn, k):
    """a lossy response by one worker, another function's with equally long buffers, and the first again; the points on the axis, where
    all grid points are alike, or anywhere"""
    def lossy(f, alpha):
        c = call_sir(rng, f, api, alpha=alpha, No=1, ntmax=100, nmax=4, lvl="ignore", env={"DREAM_NUM_THREADS": 1})
        return c, 3 if f in ARRAY else 2
    x, i = lossy(fn, gen.u(rng, .5, 4))
    if k % 2 == 0:
        x.args[0].v[:2] = [0.0, 0.0]
        if fn in ("dreamrect", "dreamrect_f") and k % 4 == 0:         # one grid point
            x.args[i].v[:2] = [.9 * x.args[1].v[0], .9 * x.args[1].v[1]]
        if fn in ("dreamcirc", "dreamcirc_f") and k % 4 == 0:
            x.args[i].v[:2] = [1.7 * x.args[1].v[0]] * 2
    y, j = lossy(rng.choice([f for f in SIR if f != fn]), gen.u(rng, 5, 20))
    y.args[j].v[2:4] = x.args[i].v[2:4]
    s = [x, y, Call.load(x.dump())]
    if rng.random() < .5:
        s += [Call.load(y.dump()), Call.load(x.dump())]
    return s


def signal_words(st):
    """the model of a session's dispositions explored in full, and its histories"""
    for n, w in ((3, False), (4, True)):
        cfg = os.path.join(BUILD, "signals-%d.cfg" % os.getpid())
        open(cfg, "w").write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\nCONSTANTS N = %d Words = %s\n" % (n, "TRUE" if w else "FALSE"))
        rc, o, (tr, ds) = tlc("Signals", cfg=cfg)
        os.unlink(cfg)
        if rc != 0:
            raise CheckError("Signals.tla: " + o[-1500:])
        st.models.append({"module": "Signals(words)" if w else "Signals", "N": n, "states": ds, "invariants": "Kept Foreign Ours Whole"})
        st.states += ds
        st.transitions += tr
    return printed_words(o)


def signal_session(rng, api, fn, word):
    """a history of calls of fn in a session which sometimes changes its handlers"""
    import malform
    out, h = [], ""
    for op in word:
        if op == "set":
            h = " ".join(str(x) for x in rng.choice([rng.sample([2, 3, 4], 3), [rng.choice([1, 2, 3, 4]) for _ in range(3)]]))
            continue
        opts = dict(lvl=rng.choice(LVL)) if fn in SIR + ["das", "das_f"] else {}
        if op == "stop" and opts:
            opts = dict(lvl="stop", spill=True)
        s = points_session(rng, api, fn, rng.choice([1, 2, 5]), {}, **opts)
        c = s[-1]
        if op == "bad":
            c = s[-1] = malform.submat(rng, c, s[0].args[1]) if fn in SUB else malform.mutate(rng, c)
        if op == "intr":
            first = again(s, {"DREAM_SCHED": "hw=4,mode=free", "DREAM_NUM_THREADS": ""})
            s = first + again(s, {"DREAM_SCHED": rand_sched(rng, ",sig=%.4f,sgn=%s" % (rng.random() ** rng.choice([.3, 1]), rng.choice(["INT", "ABRT", "TERM"]))), "DREAM_NUM_THREADS": ""})
        for x in s:
            if x.fn[0] != "@":
                x.env = dict(x.env or {}, SESSION_HANDLERS=h)
        out += s
    return out


def run_T03(rng, tier, st, evaluate, facets, rnd):
    import malform
    out = []
    if rnd == 0:
        run_T03.words = signal_words(st)
    for api, fn in THREADED:
        for w in rng.sample(run_T03.words, 5):
            if set(w) != {"set"}:
                out.append(signal_session(rng, api, fn, w))
    hist = [s for s in out if s]
    out = []
    for _ in range(6):
        for api in APIS:
            for fn in (OCT_ALL if api == "oct" else PY_ALL):
                if fn in SUB:
                    seq = inplace_any(rng, fn)
                    bad = inplace_any(rng, fn)
                    bad[1] = malform.submat(rng, bad[1], bad[0].args[1])
                    out += [seq, bad]
                    continue
                out.append([any_call(rng, api, fn, T(rng), lvl=rng.choice(LVL))])
                out.append([malform.mutate(rng, any_call(rng, api, fn, T(rng)))])
                if fn in CONVS and api == "oct":
                    out.append(inplace_any(rng, fn))
                    bad = inplace_any(rng, fn)
                    bad[1] = malform.mutate(rng, bad[1])
                    out.append(bad)
                if fn in SIR:
                    for lvl in ("stop", "warn", "ignore"):
                        o = dict(env=T(rng), lvl=lvl, spill=True, ntmax=30)
                        if fn != "dream_arr_annu":
                            o["nmax"] = 3
                        out.append([call_sir(rng, fn, api, rng.choice([0.0, 0.0, 2.0]), **o)])
                if fn in ("das", "das_f"):
                    out.append([gen.das(rng, api, None, "F" if fn == "das_f" else "D", inside=False, env=T(rng), lvl=rng.choice(["stop", "warn"]))])
    for s in out:
        session_handlers(rng, s)
    bad = evaluate(out, st, facets, mt=True) + evaluate(hist, st, facets, mt=True)
    # interrupted calls, and calls that signals reach while they do not handle them
    out = []
    for api, fn in THREADED:
        for _ in range(2):
            s = points_session(rng, api, fn, rng.choice([1, 2, 5, 9]), {}, **(dict(lvl=rng.choice(LVL), spill=rng.random() < .4) if fn in SIR + ["das", "das_f"] else {}))
            t = again(s, {"DREAM_SCHED": "hw=4,mode=free", "DREAM_NUM_THREADS": ""})
            for _ in range(2):
                x = ",sig=%.4f,sgn=%s" % (rng.random() ** rng.choice([.3, 1]), rng.choice(["INT", "ABRT", "TERM"]))
                t += again(s, {"DREAM_SCHED": rand_sched(rng, x), "DREAM_NUM_THREADS": ""})
            out.append(session_handlers(rng, t, True))
    return bad + evaluate(out, st, facets, mt=True)


def session_handlers(rng, s, quiet=False):
    """calls in sessions with other signal handlers than usual: 0 default, 1 ignored, 2 to 4 handlers of the session"""
    for c in s:
        if c.fn[0] != "@":
            k = rng.random()
            h = [rng.choice([0, 1, 2, 3, 4]) for _ in range(3)] if k < .5 else rng.sample([2, 3, 4], 3) if k < .75 else None
            if quiet and h:
                h = [x or 1 for x in h]
            c.env["SESSION_HANDLERS"] = " ".join(map(str, h)) if h else ""
    return s


def to_py(c):
    """the same call on the Python binding"""
    d = Call.load(c.dump())
    d.api, d.nout = "py", 1
    if c.fn == "das":
        d.fn = "das_f:das" if c.args[0].kind == "F" else "das:das"
        for i in (4, 6):
            if len(d.args[i].v) == 1:
                d.args[i] = Arg("FLOAT", 1, 1, d.args[i].v)
        if d.args[2].kind == "N":
            d.args[2] = Arg(c.args[0].kind, 0, 3)
        if len(d.args) == 8:
            d.args.append(S("stop"))
        if len(d.args) == 9:
            d.args.append(S("cpu"))
        return d
    if c.fn in CONV:
        d.fn = "fftconv_p:fftconv_p"
        return d
    if c.fn in ARRAY + ["dream_arr_annu"]:
        i = 12 if c.fn in ARRAY else 9
        if d.args[i].kind == "D" and d.args[i].r == 1 and d.args[i].c == 1:
            d.args[i] = Arg("FLOAT", 1, 1, d.args[i].v)
    want = {**{f: 6 for f in SINGLE}, **{f: 8 for f in FOCUS}, **{f: 14 for f in ARRAY}, "dream_arr_annu": 11}[c.fn]
    if len(d.args) == want - 1:
        d.args.append(S("stop"))
    return d


MEX_ALL = SIR + ["das"] + CONVS + ANALYTIC + AUX        # the in-place forms cannot work through Octave's MEX interface
JL_ALL = SIR + ["das", "das_f", "conv_p", "fftconv_p"]


def to_mex(c, rng=None):
    d = Call.load(c.dump())
    if rng and d.api == "oct":
        d = gen.disguise(rng, d, rng.choice([0, 0, 0, .4]))     # other classes: not converted
        for a in d.args:                                        # a logical is not numeric there: nothing is promised
            a.kind = "D" if a.kind == "B" else a.kind
    d.api = "mex"
    return d


def to_jl(c):
    """the same call on the Julia gateway: vectors are one-dimensional, every parameter is given"""
    d = to_py(c)
    d.api = "jl"
    f = d.fn.split(":")[-1]
    if c.fn == "das":
        vec, flo = [5], [4, 6]
        if len(d.args) == 10:
            d.args.append(S("off"))
    elif c.fn in CONVS:
        d.fn, vec, flo = c.fn, [], []
    elif c.fn in ARRAY:
        vec, flo = [1, 3, 4, 5, 7, 9, 11], [12]
    elif c.fn == "dream_arr_annu":
        vec, flo = [1, 2, 3, 4, 6, 8], [9]
    elif c.fn in FOCUS:
        vec, flo = [1, 2, 3, 4, 6], []
    else:
        vec, flo = [1, 2, 3, 4], []
    for i in vec:
        a = d.args[i]
        if a.kind in "DF" and (a.r == 1 or a.c == 1):
            d.args[i] = Arg("V1" if a.kind == "D" else "V1F", a.r, a.c, a.v)
        elif a.kind == "FLOAT":
            d.args[i] = Arg("V1", 1, 1, a.v)
    for i in flo:
        if d.args[i].kind in ("D", "F") and len(d.args[i].v) == 1:
            d.args[i] = Arg("FLOAT", 1, 1, d.args[i].v)
    return d


def both(rng, c):
    """the call through each binding, now and then with arguments in another representation"""
    p = rng.choice([0, 0, 0, .5])
    return [[gen.disguise(rng, x, p)] for x in (c, to_py(c))]


def gateway_calls(rng, n, conv, fns):
    """valid calls of every function, as the Octave function takes them, turned into calls of another gateway"""
    out = []
    for k in range(n):
        for fn in SIR:
            if fn not in fns:
                continue
            for lvl in (None, "ignore", "warn", "stop"):
                o = dict(env=T(rng), lvl=lvl, spill=lvl is not None and rng.random() < .4, ntmax=60, alpha=rng.choice([0.0, 0.0, 1.0]))
                if o["alpha"]:
                    o["ntmax"] = 24
                if fn != "dream_arr_annu":
                    o["nmax"] = 3
                a = o.pop("alpha")
                out.append([conv(call_sir(rng, fn, "oct", a, **o))])
        for fn in ARRAY:
            if fn in fns:
                for m in gen.AMET:
                    out.append([conv(gen.array(rng, fn, "oct", amet=m, nmax=2, env=T(rng)))])
        if "das" in fns:
            for met in gen.DAS_MET:
                for prec in "DF":
                    ins = rng.random() < .6
                    c = conv(gen.das(rng, "oct", met, prec, inside=ins, env=T(rng), lvl=None if ins else rng.choice(["ignore", "warn", "stop"])))
                    out.append([c] + ([conv(gen.vary(rng, c))] if rng.random() < 0 else []))
        for fn in CONV:
            if fn in fns:
                for vec in ("mat", "row", "col"):
                    out.append([conv(gen.conv(rng, fn, vec=vec, env=T(rng)))])
        if "sum_fftconv" in fns:
            out.append([conv(gen.sumconv(rng, env=T(rng)))])
        for fn in ANALYTIC:
            if fn in fns:
                out += [[conv(gen.analytic(rng, fn, env=T(rng)))] for _ in range(4)]
        if "dream_att" in fns:
            out += [[conv(gen.att(rng))], [conv(gen.apodwin(rng))], [conv(gen.apodwin(rng))]]
    return out


def gateway_malformed(rng, n, conv, fns, df):
    """every argument of every function in every wrong form, as the Octave function takes it; valid calls between"""
    import malform
    out = []
    for fn in fns:
        for _ in range(n):
            rng.shuffle(df)
            s = []
            for (w,) in df:
                i, k = w.split("/")
                d = malform.deform(any_call(rng, "oct", fn, T(rng), lvl=rng.choice(LVL[1:])), int(i) - 1, k)
                if d is not None:
                    try:
                        s.append(conv(d))
                    except (IndexError, KeyError):      # too few arguments to turn into those of the other language
                        continue
                    if rng.random() < .12:
                        s.append(conv(any_call(rng, "oct", fn, T(rng), lvl=rng.choice(LVL))))
                if len(s) > 20:
                    out.append(s)
                    s = []
            out.append(s)
    return [s for s in out if s]


def gateway_das(rng, n, conv):
    """beamforming sessions: the object that is kept must not reach the next call"""
    out = []
    for _ in range(n):
        s = []
        for _ in range(rng.choice([2, 3, 4])):
            if s and rng.random() < .6:
                s.append(gen.vary(rng, s[-1]))
            else:
                s.append(gen.das(rng, "oct", rng.choice(gen.DAS_MET), rng.choice("DF"), inside=rng.random() < .6, env=T(rng), lvl=rng.choice(LVL)))
        out.append([conv(c) for c in s])
    return out


def run_B02(rng, tier, st, evaluate, facets, rnd):
    df, (tr, ds) = words("deform", 1)
    st.models.append({"module": "Histories(deform)", "histories": len(df), "states": ds})
    fns = [f for f in MEX_ALL if f in run_B02.fns]
    out = gateway_calls(rng, 4, lambda c: to_mex(c, rng), fns)
    out += gateway_malformed(rng, 1, to_mex, fns, df)
    if "das" in fns:
        out += gateway_das(rng, 30, to_mex)
    return evaluate(out, st, facets)


def run_B03(rng, tier, st, evaluate, facets, rnd):
    df, (tr, ds) = words("deform", 1)
    st.models.append({"module": "Histories(deform)", "histories": len(df), "states": ds})
    fns = [f for f in JL_ALL if f in run_B03.fns]
    out = gateway_calls(rng, 4, to_jl, fns)
    out += gateway_malformed(rng, 1, to_jl, fns, df)
    if "das" in fns:
        out += gateway_das(rng, 30, to_jl)
    return evaluate(out, st, facets)


def run_B01(rng, tier, st, evaluate, facets, rnd):
    """the same arguments through both bindings, each judged against the one specification"""
    import malform
    out = []
    for k in range(5):
        for fn in SIR:
            for lvl in (None, "ignore", "warn", "stop"):
                o = dict(env=T(rng), lvl=lvl, spill=lvl is not None and rng.random() < .4, ntmax=60, alpha=rng.choice([0.0, 0.0, 1.0]))
                if o["alpha"]:
                    o["ntmax"] = 24
                if fn != "dream_arr_annu":
                    o["nmax"] = 3
                a = o.pop("alpha")
                c = call_sir(rng, fn, "oct", a, **o)
                out += both(rng, c)
        for fn in ARRAY:
            for m in gen.AMET:
                c = gen.array(rng, fn, "oct", amet=m, nmax=2, env=T(rng))
                out += both(rng, c)
        for met in gen.DAS_MET:
            for prec in "DF":
                ins = rng.random() < .6
                c = gen.das(rng, "oct", met, prec, inside=ins, env=T(rng), lvl=None if ins else rng.choice(["ignore", "warn", "stop"]))
                out += both(rng, c)
        for vec in ("mat", "row", "col"):
            c = gen.conv(rng, "fftconv_p", vec=vec, env=T(rng))
            out += both(rng, c)
        for fn in SIR + ["das"]:          # the same malformed call through both
            c = malform.mutate(rng, any_call(rng, "oct", fn, T(rng), lvl="warn"))
            if c.nout > 2 or len(c.args) < 5:
                continue
            try:
                d = to_py(c)
            except (IndexError, KeyError):
                continue
            if all(len(a.v) == 1 for a in d.args if a.kind == "FLOAT"):
                out += [[c], [d]]
    return evaluate(out, st, facets)


# ---------------------------------------------------------------- workers and signals

def pool(n, w, sig, words=False, oob=0, fair=False):
    """explore Pool.tla; with words: the schedules of every interleaving"""
    cfg = os.path.join(BUILD, "pool-%d-%d-%d-%d.cfg" % (n, w, sig, os.getpid()))
    os.makedirs(BUILD, exist_ok=True)
    open(cfg, "w").write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\n%sCONSTANTS N = %d W = %d MaxSig = %d MaxOob = %d Words = %s\n"
                         % ("Fair" if fair else "Spec", "PROPERTY Ends\n" if fair else "", n, w, sig, oob, "TRUE" if words else "FALSE"))
    rc, out, st = tlc("Pool", cfg=cfg)
    os.unlink(cfg)
    if rc != 0:
        raise CheckError("Pool.tla: " + out[-1500:])
    return [(n, w, x) for x in printed_words(out)], st


def schedules(st, tier, sig, rng):
    """the worker model explored in full, and the words of its small instances"""
    for n, w in ((4, 2), (5, 3), (6, 4)) if tier == "thorough" else ((4, 2), (5, 3)):
        _, (tr, ds) = pool(n, w, 1, oob=2, fair=n < 6)
        st.models.append({"module": "Pool", "N": n, "W": w, "states": ds, "invariants": "Once Whole Gone Stopped Clean Restored" + (" Ends" if n < 6 else "")})
        st.states += ds
        st.transitions += tr
    words_ = []
    for n, w in ((1, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 3)):
        ws, (tr, ds) = pool(n, w, sig, words=True)
        st.models.append({"module": "Pool(words)", "N": n, "W": w, "schedules": len(ws), "states": ds})
        st.states += ds
        st.transitions += tr
        if sig:
            ws = [x for x in ws if "S" in x[2]]
        rng.shuffle(ws)
        words_.append(ws)
    return words_


def word_class(word):
    """where the signal lies: workers created before it, and whether one of them runs before the next is created"""
    if "S" not in word:
        return "".join(x for x in word if x == "C")[:1]
    i = word.index("S")
    rest = word[i + 1:]
    j = rest.index("C") if "C" in rest else len(rest)
    return (word[:i].count("C"), any(x not in "CS" for x in rest[:j]), "C" in rest)


def draw_words(rng, ws, k, between=False):
    """schedules of every class, with as many steps of the code for one of the model as the code may take"""
    cl = {}
    for x in ws:
        cl.setdefault(word_class(x[2]), []).append(x)
    out = []
    for j in range(k):
        cs = sorted(cl, key=str)
        if between and j % 2 == 0:      # a worker meets the signal before the caller has created the others
            cs = [c for c in cs if c[0] and c[1] and c[2]] or cs
        n, w, word = rng.choice(cl[rng.choice(cs)])
        r = rng.choice([1, 1, 2, 4])
        out.append((n, w, [y for x in word for y in ([x] if x in "CS" else [x] * r)]))
    return out


def points_call(rng, api, fn, n, env, lvl=None, spill=False, alpha=0.0):
    """a call of fn with n independent points (columns, for the convolutions)"""
    if fn in SIR:
        o = dict(env=env, No=n, ntmax=30, lvl=lvl, spill=spill)
        if fn != "dream_arr_annu":
            o["nmax"] = 3
        return call_sir(rng, fn, api, alpha, **o)
    if fn in ("das", "das_f"):
        return gen.das(rng, api, None, "F" if fn == "das_f" else rng.choice("DDF") if api == "oct" else "D",
                       size=dict(nT=rng.randint(1, 4), nR=rng.randint(1, 4), No=n, K=rng.randint(6, 30)), env=env, lvl=lvl, inside=not spill)
    if fn in CONV:
        return gen.conv(rng, fn, api, dims=(rng.randint(1, 9), n, rng.randint(1, 7)), env=env, vec=rng.choice(["mat", "mat", "row", "col"]) if n > 1 else "col")
    if fn == "sum_fftconv":
        return gen.sumconv(rng, (rng.randint(1, 6), n, rng.randint(1, 5)), env=env)
    return gen.analytic(rng, fn, No=n, nt=20, env=env)


def points_session(rng, api, fn, n, env, **kw):
    """as a session: the in-place functions need their variable"""
    if fn in SUB:
        rows = rng.randint(2, 6)
        s = list(gen.submat(rng, fn, "A", (rows, n + 1), full=False))
        a = s[1]
        a.args[2] = row(1, n)
        nr = int(a.args[1].v[1] - a.args[1].v[0]) + 1
        a.args[3] = gen.rnd(rng, nr, n)
        a.env = env
        return s
    if fn in CONV and api == "oct" and n > 1 and rng.random() < .3:
        m, k = rng.randint(2, 8), rng.randint(1, 6)
        c, sz = gen.inplace(rng, fn, "Y", rng.choice(["=", "+=", "-="]), dims=(m, n, k), env=env, vec=rng.choice(["mat", "col"]))
        return [gen.setvar("Y", gen.rnd(rng, *sz)), c]
    return [points_call(rng, api, fn, n, env, **kw)]


def again(s, env):
    """the same session with another environment"""
    out = [Call.load(c.dump()) for c in s]
    for c in out:
        if not c.fn.startswith("@"):
            c.env = env
    return out


THREADED = [("oct", f) for f in OCT_ALL if f not in AUX] + [("py", f) for f in PY_ALL]


def rand_sched(rng, extra=""):
    k = rng.random()
    if k < .15:
        return "hw=%d,mode=free%s" % (rng.choice([0, 1, 2, 3, 5, 8, 16, 33]), extra)
    return "hw=%d,mode=rand,seed=%d,gap=%d%s" % (rng.choice([2, 3, 4, 5, 7, 8, 16]), rng.randrange(1, 10 ** 6), int(10 ** rng.uniform(.5, 3.2)), extra)


def run_T01(rng, tier, st, evaluate, facets, rnd):
    words_ = schedules(st, tier, 0, rng) if rnd == 0 else run_T01.words
    run_T01.words = words_
    out = []
    for api, fn in THREADED:
        # every small pool: a schedule of the model
        for ws in words_:
            for n, w, word in draw_words(rng, ws, min(4, len(ws))):
                env = {"DREAM_SCHED": "hw=%d,mode=word%s,w=%s" % (w, rng.choice(["", ",at=entry"]), ".".join(word)), "DREAM_NUM_THREADS": ""}
                out.append(points_session(rng, api, fn, n, env))
        # the same call under many worker counts and schedules
        for k in range(8):
            n = rng.choice([1, 2, 3, 5, 7, 8, 11, 16, 17, 31]) if k < 3 else rng.choice([2, 3, 5, 8, 16, 24])
            spill = k == 2
            lvl = rng.choice(["stop", "warn", "ignore"]) if k > 1 else rng.choice(LVL)
            s = points_session(rng, api, fn, n, {}, **(dict(lvl=lvl, spill=spill, alpha=1.5 if k == 1 and rng.random() < .5 else 0.0) if fn in SIR + ["das", "das_f"] else {}))
            if k >= 3:
                if fn not in SIR + ["das", "das_f"]:
                    continue
                push_out(rng, s[0])
            t = []
            for nt in rng.sample(["", "0", "1", "2", "3", str(max(n - 1, 1)), str(n), str(n + 1), "64"], 4):
                t += again(s, {"DREAM_SCHED": rand_sched(rng), "DREAM_NUM_THREADS": nt})
            out.append(t)
    return evaluate(out, st, facets, mt=True)


def run_T02(rng, tier, st, evaluate, facets, rnd):
    words_ = schedules(st, tier, 1, rng) if rnd == 0 else run_T02.words
    run_T02.words = words_
    out = []
    none = {"DREAM_SCHED": "mode=free", "DREAM_NUM_THREADS": ""}
    for api, fn in THREADED:
        for ws in words_:
            # a schedule for each signal
            for sgn, (n, w, word) in zip(("INT", "ABRT", "TERM", "INT"), draw_words(rng, ws, 4, True)):
                env = {"DREAM_SCHED": "hw=%d,mode=word%s,w=%s,sgn=%s" % (w, rng.choice(["", ",at=entry"]), ".".join(word), sgn), "DREAM_NUM_THREADS": ""}
                s = points_session(rng, api, fn, n, env)
                out.append(s + again(s, none))
        for k in range(4):
            n = rng.choice([1, 2, 5, 9, 17])
            spill = k == 3
            s = points_session(rng, api, fn, n, {}, **(dict(lvl=rng.choice(["stop", "warn", "ignore"]) if spill else None, spill=spill) if fn in SIR + ["das", "das_f"] else {}))
            if spill and fn in SIR + ["das", "das_f"] and rng.random() < .4:
                push_out(rng, s[0])
            base = "hw=1" if k == 1 else None
            t = again(s, {"DREAM_SCHED": (base or "hw=4") + ",mode=free", "DREAM_NUM_THREADS": ""})
            for _ in range(2):
                x = "sig=%.4f,sgn=%s" % (rng.random() ** rng.choice([.3, 1]), rng.choice(["INT", "INT", "ABRT", "TERM"]))
                t += again(s, {"DREAM_SCHED": base + ",mode=free," + x if base else rand_sched(rng, "," + x), "DREAM_NUM_THREADS": ""})
                t += again(s, none)
            # another function of the session
            a2, f2 = rng.choice([y for y in THREADED if y[0] == api and y[1] not in SUB])
            t.append(points_call(rng, a2, f2, rng.choice([1, 3, 6]), none))
            out.append(t)
    return evaluate(out, st, facets, mt=True)


# ---------------------------------------------------------------- helper scripts

def s_F01(rng, n):
    out = []
    for _ in range(n):
        cs = []
        for _ in range(4):
            r, c = rng.choice([(1, 1), (1, 1), (1, 5), (4, 1), (2, 3)])

            def arr(lo, hi):
                rr, cc = (r, c) if rng.random() < .6 else (1, 1)
                v = [rng.choice([0.0, gen.u(rng, lo, hi), gen.u(rng, lo, hi), gen.u(rng, lo, hi)]) for _ in range(rr * cc)]
                return cm(rr, cc, v)
            unit = rng.choice(["Pa", "pa", "bar", "BAR", "at", "atm", "Atm", "mmHg", "mmhg", "psi", "PSI"])
            one = {"pa": 98066.5, "bar": .98, "at": 1, "atm": .968, "mmhg": 735.6, "psi": 14.22}[unit.lower()]
            if rng.random() < .05:
                unit, one = rng.choice(["kPa", "torr", "x"]), 98066.5
            a = [arr(-5, 60), arr(0, 10 ** rng.uniform(0, 3) * one), S(unit), arr(0, 45)][:rng.choice([1, 2, 3, 4, 4, 4, 4])]
            if len(a) == 2:
                a[1] = arr(0, 10 ** rng.uniform(3, 8))
            cs.append(Call("oct", "h2o_soundspeed", a))
        out.append(cs)
    return out


def s_F02(rng, n):
    out = []
    for _ in range(n):
        cs = []
        for _ in range(3):
            L = rng.choice([1, 2, 3, 4, 7, 8])
            p = 10 ** rng.uniform(-1, 1)
            gx = [(i - rng.choice([0, (L - 1) / 2])) * p for i in range(L)] if rng.random() < .6 else [gen.u(rng, -9, 9) * p for _ in range(L)]
            cs.append(Call("oct", "arr_focus_delays", [cm(*rng.choice([(1, L), (L, 1)]), gx), num("oct", gen.u(rng, 300, 6000)),
                                                        num("oct", rng.choice([1, 1, 1, -1]) * 10 ** rng.uniform(-.5, 2.5)),
                                                        num("oct", rng.choice([0.0, gen.u(rng, -60, 60), gen.u(rng, -30, 30)]))]))
        out.append(cs)
    return out


# ---------------------------------------------------------------- OpenCL

def on_gpu(c, device):
    """the call with its device argument, on the library built with OpenCL"""
    c = Call.load(c.dump())
    at = {"dreamrect": 6, "dreamcirc": 6, "rect_sir": 5}.get(c.fn, 9)
    if len(c.args) < at:
        c.args.append(S("stop"))
    c.args[at:] = [S(device)]
    c.api = c.api + "cl"
    return c


# the kernels run in work groups of 64 points
GPU_POINTS = [1, 2, 3, 5, 9, 63, 64, 65, 100, 128]


def s_G01(rng, n):
    out = []
    for k in range(n):
        for fn in ("dreamrect", "dreamcirc", "rect_sir"):
            No = rng.choice(GPU_POINTS if k % 4 == 0 else GPU_POINTS[:5])
            if fn == "rect_sir":
                c = gen.analytic(rng, fn, No=No, nt=rng.randint(10, 30) if No > 9 else None)
            else:
                # attenuation runs on the CPU
                c = gen.single(rng, fn, "oct", 2.0 if k % 6 == 5 else 0.0, No=No, lvl=rng.choice(LVL), nmax=4 if No > 9 else 12,
                               spill=k % 5 in (1, 3), ntmax=40 if No > 9 else gen.NT_MAX)
            s = [on_gpu(c, "gpu")]
            if rng.random() < .3:
                s.append(on_gpu(c, "cpu"))
            out.append(s)
    return out


def das_gpu(rng, api, met, prec, device="gpu", **kw):
    c = gen.das(rng, api, met, prec, lvl=rng.choice(["ignore", "warn", "stop"]), **kw)
    return on_gpu(c, device)


def bad_uni(rng, c):
    """a malformed das_uni call"""
    c = Call.load(c.dump())
    A = c.args
    k = rng.randrange(9)
    if k == 0:
        A.pop()
    elif k == 1:
        A.append(S("x"))
    elif k == 2:
        a = A[0]
        A[0] = Arg(a.kind, a.r, a.c + 1, a.v + [0.0] * a.r)
    elif k == 3:
        a = A[0]
        A[0] = Arg(a.kind, a.r, a.c - 1, a.v[:-a.r])
    elif k == 4:
        A[7] = S("tmf")
    elif k == 5:
        a = A[1]
        A[1] = Arg(a.kind, 1, 4, a.v + [1.0])
    elif k == 6:
        a = A[5]
        A[5] = Arg(a.kind, 1, len(a.v) + 1, a.v + a.v[:1])
        if len(a.v) == 1 and A[3].v[0] == A[3].v[6]:
            A[5] = Arg(a.kind, 0, 0)
    elif k == 7:
        i = rng.choice([1, 3, 4, 5, 6])
        a = A[i]
        A[i] = Arg("F" if a.kind == "D" else "D", a.r, a.c, a.v)
    else:
        c.nout = 2
    return c


def s_G02(rng, n):
    out = []
    for k in range(n):
        met = ["saft", "tfm", "rca_coltx", "rca_rowtx", "rca"][k % 5]
        # one object is reused as long as the sizes, the method and the device stay
        s = []
        sz = gen.das_size(rng)
        if k % 6 == 5:
            sz["No"] = rng.choice(GPU_POINTS[5:])
            sz["nT"], sz["nR"], sz["K"] = min(sz["nT"], 3), min(sz["nR"], 3), min(sz["K"], 20)
        for j in range(rng.choice([1, 2, 3, 4])):
            api = "oct"
            t = rng.random()
            if t < .25:
                sz = gen.das_size(rng)
            elif t < .35:
                sz = dict(sz, nT=sz["nR"], nR=sz["nT"])
            elif t < .45:
                met = rng.choice(gen.DAS_MET)
            prec = rng.choice("DDF")
            s.append(das_gpu(rng, api, met, prec, rng.choice(["gpu", "gpu", "gpu", "cpu"]), size=sz, inside=rng.random() < .7,
                             grempty=rng.random() < .12))
            if rng.random() < .25:
                s.append(Call.load(rng.choice(s).dump()))
            if rng.random() < .3:
                s.append(gen.vary(rng, s[-1]))
        out.append(s)
        out.append([das_gpu(rng, "py", met, rng.choice("DF"), size=sz, inside=rng.random() < .7, grempty=rng.random() < .12)])
        s = []
        for j in range(rng.choice([1, 2, 3])):
            c = gen.das_uni(rng, met, rng.choice("DDF"), inside=rng.random() < .7, grempty=rng.random() < .12, size=sz if rng.random() < .7 else None)
            s.append(bad_uni(rng, c) if rng.random() < .25 else c)
            if rng.random() < .25:
                s.append(Call.load(rng.choice(s).dump()))
            if rng.random() < .5 and s[-1] is c:
                s += [gen.vary(rng, c) for _ in range(rng.choice([1, 2]))]
        out.append(s)
    return out
