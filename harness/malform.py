"""Malformed calls: a valid call with one thing wrong.  Whether the result really is malformed is decided by Valid.tla."""
import gen
from vlib import *


def submat(rng, c, A):
    """ranges outside the destination, sources of the wrong size"""
    c = Call.load(c.dump())
    M, N = A.r, A.c
    k = rng.choice(["r0", "r1", "c0", "c1", "rswap", "cswap", "brows", "bcols", "rcount", "ccount", "neg"])
    r, q, B = c.args[1], c.args[2], c.args[3]
    nr, nc = int(r.v[1] - r.v[0]) + 1, int(q.v[1] - q.v[0]) + 1
    fit = lambda: gen.rnd(rng, max(1, int(abs(r.v[1] - r.v[0])) + 1), max(1, int(abs(q.v[1] - q.v[0])) + 1))
    if k == "r0":
        r.v[0] = 0.0
        c.args[3] = fit()
    elif k == "r1":
        r.v[1] = float(M + rng.choice([1, 2, 50]))
        c.args[3] = fit()
    elif k == "c0":
        q.v[0] = 0.0
        c.args[3] = fit()
    elif k == "c1":
        q.v[1] = float(N + rng.choice([1, 2, 50]))
        c.args[3] = fit()
    elif k == "rswap":
        r.v = [float(M), float(1)]
        c.args[3] = fit()
    elif k == "cswap":
        q.v = [float(N), float(1)]
        c.args[3] = fit()
    elif k == "brows":
        if nr == 1:
            r.v = [1.0, 2.0]
            nr = 2
        c.args[3] = gen.rnd(rng, nr - 1, nc)
    elif k == "bcols":
        c.args[3] = gen.rnd(rng, nr, nc + rng.choice([1, 2]))
    elif k == "rcount":
        c.args[1] = row(*([1.0] * rng.choice([1, 3])))
    elif k == "ccount":
        c.args[2] = row(*([1.0] * rng.choice([1, 3])))
    else:
        r.v[0] = -3.0
        c.args[3] = gen.rnd(rng, int(r.v[1]) + 4, nc)
    return c


WORDS = ["", "bogus", "stopp", "sto", "STOP", "X", "xyz", "x+", "offf", "on ", "rca_", "tfmm", "saf", "gaus", "hannn", "uds", "gpuu", "c", "ignor", "warning", "==", "+", "-"]
# arguments a character array can silently stand for (Octave converts it to its codes)
ANYSHAPE = {"das": range(7), "conv_p": (0, 1, 2), "fftconv_p": (0, 1, 2), "fftconv_ola": (0, 1, 2, 3), "sum_fftconv": (0, 1, 2),
            "dream_arr_annu": (1,), "dream_apodwin": (1,), "copy_p": (0, 3), "add_p": (0, 3)}


def reshape(rng, a):
    """the argument with another shape"""
    k = rng.choice(["more", "less", "empty", "col", "row", "mat", "t"])
    v = list(a.v) or [1.0]
    kind = a.kind if a.kind in ("D", "F") else "D"
    if k == "more":
        return Arg(kind, 1, len(v) + 1, v + [v[-1]]) if a.r == 1 else Arg(kind, a.r + 1, a.c, (v * 3)[:(a.r + 1) * a.c])
    if k == "less":
        if len(v) == 1:
            return Arg(kind, 0, 0)
        return Arg(kind, 1, len(v) - 1, v[:-1]) if a.r == 1 else Arg(kind, a.r, a.c - 1, v[:a.r * (a.c - 1)]) if a.c > 1 else Arg(kind, a.r - 1, 1, v[:-1])
    if k == "empty":
        return Arg(kind, rng.choice([0, 0, 1]), 0)
    if k == "col":
        return Arg(kind, a.r, a.c + 1, v + v[-a.r:])
    if k == "row":
        return Arg(kind, a.r + 1, a.c, (v * 3)[:(a.r + 1) * a.c])
    if k == "mat":
        return Arg(kind, 2, len(v), v + v)
    return Arg(kind, a.c, a.r, v)


def mutate(rng, c):
    """c with one argument, the argument count or the output count changed"""
    c = Call.load(c.dump())
    fn = c.fn.split(":")[0]
    n = len(c.args)
    k = rng.random()
    if k < .1:
        if c.api == "oct" and rng.random() < .4 and not c.into:
            c.nout = 3
            return c
        if rng.random() < .5:
            c.args = c.args[:rng.randrange(0, n)]
            if c.into and c.back > len(c.args):
                c.into, c.back, c.nout = "", 0, 1
        else:
            for _ in range(rng.choice([1, 3, 8])):
                c.args.append(rng.choice([S("stop"), row(1.0), S("bogus")]))
        return c
    i = rng.randrange(n)
    if c.into and c.args[i].kind == "REF":
        c.into = ""
        c.args[i] = rng.choice([Arg("CELL"), Arg("STRUCT"), gen.rnd(rng, 2, 1), Arg("D", 0, 0)])
        return c
    a = c.args[i]
    if a.kind == "REF":
        i = 0
        a = c.args[0]
    if a.kind == "S":
        c.args[i] = rng.choice([S(rng.choice(WORDS)), S(rng.choice(WORDS)), S(a.s + rng.choice("x +_")), S(a.s.upper()), row(1.0), Arg("CELL"), Arg("STRUCT")])
        if c.api == "py" and c.args[i].kind == "D":
            c.args[i] = Arg("FLOAT", 1, 1, [1.0])
        if fn.startswith("das") and i >= 10:
            c.args[i] = Arg("CELL")
        return c
    if a.kind == "D3":
        c.args[i] = rng.choice([Arg("CELL"), Arg("STRUCT"), gen.rnd(rng, a.r, a.c), Arg("D3", l=a.l + 1), Arg("N")])
        if c.args[i].kind == "D3":
            c.args[i] = Arg("D3", a.r, a.c, (a.v * 3)[:a.r * a.c * (a.l + 1)], l=a.l + 1)
        return c
    bad = [Arg("CELL"), Arg("STRUCT"), Arg("ND")]
    apod = {"dream_arr_annu": 8}.get(fn, 11 if fn.startswith("dream_arr") else -1)
    if i == apod and c.args[apod - 1].s != "ud":
        return mutate(rng, c)       # the weights are not used: their form is not specified
    if fn.startswith("das") and i == 2 and len(c.args) > 7 and c.args[7].s == "saft":
        return mutate(rng, c)       # nor is the receive array of SAFT
    if c.api == "oct" and i in ANYSHAPE.get(fn, ()):
        bad.pop()                   # Octave makes a matrix of it
    if i not in ANYSHAPE.get(fn.replace("das_f", "das"), ()) or c.api == "py":
        bad.append(S(rng.choice(["off", "bogus", "a very long string", ""])))
        if len(bad[-1].s) in (a.r * a.c, 0) and c.api == "oct":
            bad.pop()
    if c.api == "py":
        bad = [b for b in bad if b.kind != "STRUCT" and not (b.kind == "ND" and fn.startswith("das") and i == 0)]
        if a.kind == "FLOAT":
            c.args[i] = rng.choice([S("x"), gen.rnd(rng, 2, 2)])
            return c
    c.args[i] = rng.choice(bad) if rng.random() < .35 else reshape(rng, a)
    if i == 0 and fn in ("rect_sir", "circ_sir", "scirc_sir") and c.args[0].c == 3:
        b = c.args[0]               # points behind the aperture have no closed form
        b.v = b.v[:2 * b.r] + [abs(x) for x in b.v[2 * b.r:]]
    return c


SHAPES = ["more", "less", "more1", "less1", "empty", "emptyrow", "col", "row", "mat", "turn", "cell", "struct", "nd", "text"]
TEXTS = ["empty", "bogus", "longer", "shorter", "upper", "number", "cell"]
COUNTS = ["none", "half", "last2", "last", "extra", "extra2", "outputs"]


def shaped(kind, a, dtype):
    """argument a in another shape; vectors both as rows and as columns"""
    v = list(a.v) or [1.0]
    n = len(v)
    vec = a.r == 1 or a.c == 1
    if kind == "more":
        return Arg(dtype, 1, n + 1, v + [v[-1] * 1.25 + .5]) if vec else Arg(dtype, a.r + 1, a.c, (v * 3)[:(a.r + 1) * a.c])
    if kind == "more1":
        return Arg(dtype, n + 1, 1, v + [v[-1] * 1.25 + .5]) if vec else Arg(dtype, a.r, a.c + 1, v + v[-a.r:])
    if kind == "less":
        return Arg(dtype, 1, n - 1, v[:-1]) if vec else Arg(dtype, a.r - 1, a.c, v[:(a.r - 1) * a.c])
    if kind == "less1":
        return Arg(dtype, n - 1, 1, v[:-1]) if vec else Arg(dtype, a.r, a.c - 1, v[:a.r * (a.c - 1)])
    if kind == "empty":
        return Arg(dtype, 0, 0)
    if kind == "emptyrow":
        return Arg(dtype, 1, 0)
    if kind == "col":
        return Arg(dtype, a.r, a.c + 1, v + v[-a.r:])
    if kind == "row":
        return Arg(dtype, a.r + 1, a.c, (v * 3)[:(a.r + 1) * a.c])
    if kind == "mat":
        return Arg(dtype, 2, n, v + v)
    if kind == "turn":
        return Arg(dtype, a.c, a.r, v)
    if kind == "cell":
        return Arg("CELL")
    if kind == "struct":
        return Arg("STRUCT")
    if kind == "nd":
        return Arg("ND")
    return S("a very long string that fits nothing")


def deform(c, i, kind):
    """call c with argument i (from 0; -1: the argument count) deformed; None where the deformation does not apply or is not specified"""
    c = Call.load(c.dump())
    fn = c.fn.split(":")[0].replace("das_f", "das")
    n = len(c.args)
    if i < 0:
        if kind == "outputs":
            if c.api != "oct" or c.into:
                return None
            c.nout = 3
        elif kind.startswith("extra"):
            for _ in range(1 if kind == "extra" else 5):
                c.args.append(S("stop"))
        else:
            c.args = c.args[:{"none": 0, "half": n // 2, "last2": n - 2, "last": n - 1}[kind]]
            if c.into and c.back > len(c.args):
                c.into, c.back, c.nout = "", 0, 1
        return c
    if i >= n:
        return None
    a = c.args[i]
    if a.kind == "S":
        if fn == "das" and i >= 10 and kind != "cell":
            return None
        if fn in ("dreamrect", "dreamcirc") and i >= 6 and kind not in ("cell", "number"):
            return None
        c.args[i] = {"empty": S(""), "bogus": S("bogus"), "longer": S(a.s + "x"), "shorter": S(a.s[:-1]), "upper": S(a.s.upper()),
                     "number": row(1.0) if c.api == "oct" else Arg("FLOAT", 1, 1, [1.0]), "cell": Arg("CELL")}.get(kind)
        return c if c.args[i] and c.args[i].s != a.s or kind in ("number", "cell") else None
    if a.kind == "REF":
        c.into = ""
        c.args[i] = {"cell": Arg("CELL"), "struct": Arg("STRUCT"), "empty": Arg("D", 0, 0),
                     "more": None if fn in ("copy_p", "add_p") else Arg("D", 2, 1, [1.0, 2.0])}.get(kind)
        return c if c.args[i] else None
    if a.kind == "D3":
        c.args[i] = {"cell": Arg("CELL"), "struct": Arg("STRUCT"), "empty": Arg("N"), "mat": Arg("D", a.r, a.c, a.v[:a.r * a.c]),
                     "more": Arg("D3", a.r, a.c, (a.v * 3)[:a.r * a.c * (a.l + 1)], l=a.l + 1)}.get(kind)
        return c if c.args[i] else None
    apod = {"dream_arr_annu": 8}.get(fn, 11 if fn.startswith("dream_arr") else -1)
    if i == apod and c.args[apod - 1].s != "ud":
        return None
    if fn == "das" and i == 2 and len(c.args) > 7 and c.args[7].s == "saft":
        return None
    if kind == "nd" and c.api == "py" and fn.startswith("das") and i == 0:
        return None             # the traces of all pairs as samples x receive x transmit: may match
    if kind == "struct" and c.api == "py" or kind == "nd" and c.api == "oct" and i in ANYSHAPE.get(fn, ()):
        return None
    if kind == "text" and c.api == "oct" and i in ANYSHAPE.get(fn, ()):
        return None
    if kind not in SHAPES:
        return None
    if c.api == "py" and a.kind == "FLOAT" and kind not in ("text", "mat"):
        return None
    if a.r == 0 and kind in ("less", "less1"):
        return None
    b = shaped(kind, a, a.kind if a.kind in ("D", "F") else "D")
    if b.kind in ("D", "F") and (b.r, b.c) == (a.r, a.c):
        return None
    if b.kind in ("D", "F") and (b.r < 0 or b.c < 0):
        return None
    c.args[i] = b
    if i == 0 and fn in ("rect_sir", "circ_sir", "scirc_sir") and b.kind == "D" and b.c == 3:
        b.v = b.v[:2 * b.r] + [abs(x) for x in b.v[2 * b.r:]]
    return c
