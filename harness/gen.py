"""Scenario generators: concrete argument lists for every DREAM function, drawn from a seeded generator."""
import math, struct
from vlib import *

NT_MAX = 160


def u(rng, a, b):
    return rng.uniform(a, b)


def obs_points(rng, n, size, where=None):
    pts = []
    for _ in range(n):
        w = where or rng.choice(["axis", "near", "off", "far", "behind", "plane", "neg", "quad", "touch"])
        if w == "axis":
            p = [0.0, 0.0, u(rng, 0.5, 6) * size]
        elif w == "near":
            p = [u(rng, -.4, .4) * size, u(rng, -.4, .4) * size, u(rng, 0.1, 0.5) * size]
        elif w == "touch":      # (almost) in contact with the aperture
            p = [u(rng, -.6, .6) * size, u(rng, -.6, .6) * size, rng.choice([0.0, u(rng, 0, .1) * size, 1e-6])]
        elif w == "off":
            p = [u(rng, -2, 2) * size, u(rng, -2, 2) * size, u(rng, 0.3, 4) * size]
        elif w == "far":
            p = [u(rng, -5, 5) * size, u(rng, -5, 5) * size, u(rng, 8, 20) * size]
        elif w == "behind":
            p = [u(rng, -1, 1) * size, u(rng, -1, 1) * size, u(rng, -4, -0.5) * size]
        elif w == "plane":
            a = u(rng, 0, 2 * math.pi)
            d = u(rng, 1.2, 3) * size
            p = [d * math.cos(a), d * math.sin(a), 0.0]
        elif w == "neg":
            p = [u(rng, -2, 0) * size, u(rng, -2, 0) * size, u(rng, 0.3, 4) * size]
        else:
            p = [rng.choice([-1, 1]) * u(rng, .5, 1.5) * size, rng.choice([-1, 1]) * u(rng, .5, 1.5) * size, u(rng, 0.3, 3) * size]
        pts.append(p)
    if rng.random() < .15:      # exactly on a plane of symmetry
        rng.choice(pts)[rng.randrange(2)] = 0.0
    if n > 1 and rng.random() < .25:        # points with coordinates in common
        for _ in range(rng.randint(1, n)):
            p, q = rng.sample(pts, 2)
            for k in rng.choice([(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]):
                p[k] = q[k]
    for p in pts:
        if not any(p):          # a grid point may be exactly there
            p[2] = 1e-6
    return pts


def ratio(rng, lo, hi):
    """size/step, away from half-integers (there the number of grid points hangs on the last bit)"""
    while True:
        x = rng.choice([float(rng.randint(max(1, math.ceil(lo)), max(1, int(hi)))), u(rng, lo, hi)])
        if abs(abs(x - round(x)) - 0.5) > 0.01 and abs(x / 1.0) > 0:
            return x


def curvature(rng, lo, hi):
    """mostly strong, now and then almost flat"""
    return u(rng, lo, hi) if rng.random() < .75 else hi * 10 ** u(rng, 0, 3)


def focus(rng, lo, hi):
    return u(rng, lo, hi) if rng.random() < .75 else 10 ** u(rng, -1.5, 3.5)


def geometry(rng, fn, nmax=14):
    g, dx, dy, half, depth = shape(rng, fn, nmax)
    f = scale(rng)
    return [x * f for x in g], dx * f, dy * f, half * f, depth * f


def scale(rng):
    """apertures are millimetres large, now and then micrometres or metres"""
    return 10 ** u(rng, -2.5, 2.5) if rng.random() < .12 else 1.0


def shape(rng, fn, nmax=14):
    """(geometry values, dx, dy, half size of the aperture, half depth)"""
    if fn == "dreamline":
        a = u(rng, 1, 10)
        dx = a / ratio(rng, 0.6, 4 * nmax)
        return [a], dx, u(rng, 0.05, 1), a / 2, 0.0
    if fn in ("dreamrect", "dreamrect_f", "dream_arr_rect"):
        a, b = u(rng, 1, 10), u(rng, 1, 10)
        dx, dy = a / ratio(rng, 0.9, nmax), b / ratio(rng, 0.9, nmax)
        return [a, b], dx, dy, math.hypot(a, b) / 2, 0.0
    if fn in ("dreamcirc", "dreamcirc_f", "dream_arr_circ"):
        R = u(rng, 1, 8)
        dx, dy = 2 * R / ratio(rng, 1.1, nmax), 2 * R / ratio(rng, 1.1, nmax)
        return [R], dx, dy, R, 0.0
    if fn in ("dreamcylind", "dream_arr_cylind"):
        a, b = u(rng, 1, 10), u(rng, 1, 10)
        Rc = rng.choice([-1, 1]) * curvature(rng, 0.55, 4) * b
        dx, dy = a / ratio(rng, 0.9, nmax), b / ratio(rng, 1.1, nmax)
        dy = min(dy, 0.95 * abs(Rc))
        return [a, b, Rc], dx, dy, math.hypot(a, b) / 2, abs(Rc) - math.sqrt(Rc * Rc - b * b / 4)
    if fn == "dreamsphere":
        R = u(rng, 1, 8)
        Rc = rng.choice([-1, 1]) * curvature(rng, 1.02, 5) * R
        dx, dy = 2 * R / ratio(rng, 1.1, nmax), 2 * R / ratio(rng, 1.1, nmax)
        return [R, Rc], dx, dy, R, abs(Rc) - math.sqrt(Rc * Rc - R * R)
    raise ValueError(fn)


def window(rng, pts, ext, cp, extra=(0.0, 0.0), ntmax=NT_MAX, nt=None, odd=None):
    """dt, nt and a delay argument such that arrivals from |s| <= ext (plus extra delays) fit in the window."""
    lo = [max(0.0, math.sqrt(sum(c * c for c in p)) - ext) * 1000 / cp + extra[0] for p in pts]
    hi = [(math.sqrt(sum(c * c for c in p)) + ext) * 1000 / cp + extra[1] for p in pts]
    vec = rng.random() < 0.5
    span = max(h - l for h, l in zip(hi, lo)) if vec else max(hi) - min(lo)
    n = nt or (rng.randint(max(4, ntmax // 3), ntmax) if rng.random() < .97 else rng.randint(1, 3))
    if odd is not None and n % 2 != odd:
        n += 1
    dt = span / max(1, n - 4) * u(rng, 1.0, 1.3)
    if rng.random() < .06 and nt is None and odd is None and min(lo) >= 0:
        # from time zero
        d = [0.0] * (rng.choice([1, len(pts)]))
        return max(hi) / max(1, n - 2) * u(rng, 1.0, 1.2), n, row(*d) if rng.random() < .5 else colv(*d)
    if rng.random() < .2 and nt is None and odd is None and ntmax > 20:
        # the window starts well before the first arrival, also at negative times
        k = rng.randint(1, n)
        n += k
        lo = [l - k * dt for l in lo]
    if vec:
        d = [l - u(rng, 0.6, 1.4) * dt for l in lo]
        if len(d) == 1:
            darg = row(d[0])
        else:
            darg = row(*d) if rng.random() < 0.5 else colv(*d)
    else:
        d = ramped(rng, min(lo) - u(rng, 0.6, 1.4) * dt, len(pts), dt)
        darg = row(*d) if rng.random() < .7 else colv(*d)
    return dt, n, darg


def ramped(rng, d, n, dt):
    """[d], or now and then n evenly spaced delays a little below it, which Octave can hold as a range"""
    if n < 2 or n > 12 or rng.random() < .8:
        return [d]
    q = 2.0 ** math.floor(math.log2(dt)) / 16
    b, s = math.floor(d / q) * q, q * rng.choice([0, 1, 1, 1])
    r = [b - s * k for k in range(n)]
    return r if rng.random() < .5 else r[::-1]


def single(rng, fn, api, alpha=0.0, No=None, lvl=None, nmax=14, ntmax=NT_MAX, env=None, spill=False, shape=None, where=None):
    """One call of an unfocused or curved single-aperture function."""
    g, dx, dy, half, depth = geometry(rng, fn, nmax)
    No = No or rng.choice([1, 2, 3, 5, 9])
    pts = obs_points(rng, No, half, where)
    cp = u(rng, 300, 6000)
    dt, nt, darg = window(rng, pts, half + depth + 1e-9, cp, ntmax=ntmax)
    if spill:
        nt, darg = spilled(rng, nt, dt, darg)
    m = row(velocity(rng, pts), cp, alpha)
    garg = row(*g) if rng.random() < 0.5 else colv(*g)
    args = [mat(pts), garg, row(dx, dy, dt, nt), darg, m]
    if lvl or api == "py":
        args.append(S(lvl or "stop"))
    return Call(api, pyname(api, fn), args, 2 if api == "oct" else 1, env)


def spilled(rng, nt, dt, darg):
    """make part of the arrivals fall outside the window"""
    k = rng.choice(["early", "late", "both"])
    if k in ("early", "both"):
        sh = u(rng, 0.1, 0.7) * nt * dt
        darg = Arg(darg.kind, darg.r, darg.c, [x + sh for x in darg.v])
    if k in ("late", "both"):
        nt = max(1, int(nt * u(rng, 0.2, 0.8)))
    return nt, darg


def pyname(api, fn):
    return fn


def focused(rng, fn, api, met=None, alpha=0.0, No=None, lvl=None, nmax=12, ntmax=NT_MAX, env=None, spill=False):
    g, dx, dy, half, _ = geometry(rng, fn, nmax)
    No = No or rng.choice([1, 2, 3, 5])
    pts = obs_points(rng, No, half)
    cp = u(rng, 300, 6000)
    met = met or rng.choice(["off", "x", "y", "xy", "x+y"])
    F = focus(rng, 0.5, 10) * half
    # the focusing delay advances t by at most hyp-F, delays it by up to 2*hyp for x+y
    hm = math.hypot(half if fn == "dreamcirc_f" else 2 * half, F)
    if met == "x+y":
        ex = (-2 * hm * 1000 / cp, (hm - 2 * F) * 1000 / cp)
    else:
        ex = (-(0 if met == "off" else 1) * 1e-9, (hm - F) * 1000 / cp)
    dt, nt, darg = window(rng, pts, half + 1e-9, cp, ex, ntmax)
    if spill:
        nt, darg = spilled(rng, nt, dt, darg)
    args = [mat(pts), row(*g), row(dx, dy, dt, nt), darg, row(velocity(rng, pts), cp, alpha), S(met), row(F)]
    if lvl or api == "py":
        args.append(S(lvl or "stop"))
    return Call(api, fn, args, 2 if api == "oct" else 1, env)


FMET = ["off", "x", "y", "xy", "x+y", "ud"]
SMET = ["off", "x", "y", "xy"]
AMET = ["off", "triangle", "gauss", "raised", "hann", "hamming", "simply", "clamped", "ud"]


def array_grid(rng, n, pitch, kind=None):
    kind = kind or rng.choice(["linx", "liny", "grid", "rand", "asym"])
    if n == 1:
        return [[0.0, 0.0, 0.0] if rng.random() < .3 else [u(rng, .3, 1) * pitch, u(rng, .3, 1) * pitch, 0.0]]
    if kind == "linx":
        G = [[(i - (n - 1) / 2) * pitch, 0.0, 0.0] for i in range(n)]
    elif kind == "liny":
        G = [[0.0, (i - (n - 1) / 2) * pitch, 0.0] for i in range(n)]
    elif kind == "grid":
        m = max(1, int(math.sqrt(n)))
        G = [[((i % m) - (m - 1) / 2) * pitch, ((i // m) - (m - 1) / 2) * pitch * 1.3, 0.0] for i in range(n)]
        if m == 1:
            G = [[(i - 0.3) * pitch, 0.4 * pitch, 0.0] for i in range(n)]
    elif kind == "asym":
        G = [[(i - 0.2 * n) * pitch, u(rng, -1, .3) * pitch, 0.0] for i in range(n)]
    else:
        G = [[u(rng, -1, 1) * n * pitch / 2, u(rng, -1, 1) * n * pitch / 2, u(rng, -.3, .3) * pitch] for _ in range(n)]
    if rng.random() < 0.5:
        rng.shuffle(G)
    if n > 1 and rng.random() < .15:
        # elements with coordinates in common
        p, q = rng.sample(G, 2)
        for k in rng.choice([(0,), (1,), (0, 1, 2), (0, 1, 2)]):
            p[k] = q[k]
    if rng.random() < .1:
        z = u(rng, -1, 1) * pitch
        for p in G:
            p[2] += z
    return G


def weights(rng, n):
    """user defined apodization weights"""
    w = [u(rng, -0.5, 1.5) for _ in range(n)]
    k = rng.random()
    if k < .25:
        for _ in range(rng.randint(1, n)):
            w[rng.randrange(n)] = rng.choice([0.0, 1.0, -1.0, 1e-3, 40.0])
    elif k < .35:
        w = [rng.choice([1.0, .5, 2.0])] * n
    return w


def apod_par(rng):
    return rng.choice([u(rng, 0.1, 3)] * 6 + [0.0, 1.0, u(rng, -1, 0)])


def velocity(rng, pts=None):
    """no velocity only where no point can lie on the aperture: 0 * inf is nothing to specify"""
    if pts is not None and any(p[2] == 0 for p in pts):
        return rng.choice([1.0, u(rng, .1, 5), -u(rng, .1, 3)])
    return rng.choice([1.0, 1.0, u(rng, .1, 5), u(rng, .1, 5), 10 ** u(rng, -4, 4), -u(rng, .1, 3), 0.0 if rng.random() < .3 else 1.0])


def array(rng, fn, api, fmet=None, smet=None, amet=None, alpha=0.0, No=None, nel=None, lvl=None, nmax=4, ntmax=NT_MAX, env=None,
          spill=False, gridkind=None):
    g, dx, dy, half, depth = geometry(rng, fn, nmax)
    nel = nel or rng.randint(1, 6)
    pitch = u(rng, 0.8, 2.5) * half
    G = array_grid(rng, nel, pitch, gridkind)
    ext = max(math.sqrt(sum(c * c for c in e)) for e in G)
    xm, ym = max(abs(e[0]) for e in G), max(abs(e[1]) for e in G)
    No = No or rng.choice([1, 2, 3])
    pts = obs_points(rng, No, half + ext)
    cp = u(rng, 300, 6000)
    fmet = fmet or rng.choice(FMET)
    smet = smet or rng.choice(SMET)
    amet = amet or rng.choice(AMET)
    F = focus(rng, 0.5, 8) * (half + ext)
    theta, phi = (rng.choice([u(rng, -40, 40), u(rng, -40, 40), u(rng, -90, 90), rng.choice([0.0, 90.0, -90.0, u(rng, 90, 180)])]) for _ in range(2))
    fd = [0.0] * nel
    unit = ext * 1000 / cp + 1e-3
    focal = [F]
    if fmet == "ud":
        focal = [u(rng, -0.3, 0.5) * unit for _ in range(nel)]
        fd = focal
    elif fmet != "off":
        rm = math.hypot(xm, ym)
        for i, e in enumerate(G):
            if fmet == "x":
                d = math.hypot(xm, F) - math.hypot(e[0], F)
            elif fmet == "y":
                d = math.hypot(ym, F) - math.hypot(e[1], F)
            elif fmet == "xy":
                d = math.hypot(rm, F) - math.sqrt(e[0] ** 2 + e[1] ** 2 + F * F)
            else:
                d = math.hypot(rm, F) - math.hypot(e[0], F) - math.hypot(e[1], F)
            fd[i] = d * 1000 / cp
    sd = [0.0] * nel
    for i, e in enumerate(G):
        if smet in ("x", "xy"):
            sd[i] += (xm + e[0]) * math.sin(math.radians(theta)) * 1000 / cp
        if smet in ("y", "xy"):
            sd[i] += (ym + e[1]) * math.sin(math.radians(phi)) * 1000 / cp
    tot = [a + b for a, b in zip(fd, sd)]
    dt, nt, darg = window(rng, pts, half + depth + ext + 1e-9, cp, (min(tot), max(tot)), ntmax)
    if spill:
        nt, darg = spilled(rng, nt, dt, darg)
    apod = weights(rng, nel) if amet == "ud" else [u(rng, .2, 1) for _ in range(rng.choice([1, nel]))]
    args = [mat(pts), row(*g), mat(G), row(dx, dy, dt, nt), darg, row(velocity(rng, pts), cp, alpha),
            S(fmet), row(*focal), S(smet), row(theta, phi), S(amet), row(*apod), num(api, apod_par(rng))]
    if lvl or api == "py":
        args.append(S(lvl or "stop"))
    return Call(api, fn, args, 2 if api == "oct" else 1, env)


def annular(rng, api, fmet=None, amet=None, alpha=0.0, No=None, rings=None, lvl=None, ntmax=NT_MAX, env=None, spill=False, tight=False):
    n = rings or rng.randint(1, 4)
    rad, r = [], 0.0
    for i in range(2 * n - 1):
        r += u(rng, 0.5, 2)
        rad.append(r)
    f = scale(rng)
    rad = [x * f for x in rad]
    if rng.random() < 0.15 and n > 1:
        rad[0] = 0.0
    R = rad[-1]
    dx, dy = 2 * R / ratio(rng, 4, 20), 2 * R / ratio(rng, 4, 20)
    No = No or rng.choice([1, 2, 3])
    pts = obs_points(rng, No, R)
    cp = u(rng, 300, 6000)
    fmet = fmet or rng.choice(["off", "on", "ud", "x", "y", "xy", "x+y"])
    amet = amet or rng.choice(AMET)
    F = focus(rng, 0.5, 8) * R
    unit = R * 1000 / cp
    focal = [F]
    ex = (0.0, 0.0)
    if fmet == "ud":
        focal = [u(rng, -0.4, 0.6) * unit for _ in range(n)]
        ex = (0.0, 0.0) if tight else (min(0, min(focal)), max(0, max(focal)))
    elif fmet != "off":
        ex = (0.0, (math.hypot(R, F) - F) * 1000 / cp)
    dt, nt, darg = window(rng, pts, R + 1e-9, cp, ex, ntmax)
    if spill:
        nt, darg = spilled(rng, nt, dt, darg)
    apod = weights(rng, n) if amet == "ud" else [u(rng, .2, 1) for _ in range(rng.choice([1, n]))]
    gr = row(*rad) if rng.random() < .5 else colv(*rad)
    args = [mat(pts), gr, row(dx, dy, dt, nt), darg, row(velocity(rng, pts), cp, alpha),
            S(fmet), row(*focal), S(amet), row(*apod), num(api, apod_par(rng))]
    if lvl or api == "py":
        args.append(S(lvl or "stop"))
    return Call(api, "dream_arr_annu", args, 2 if api == "oct" else 1, env)


# ---------------------------------------------------------------- delay-and-sum

DAS_MET = ["saft", "tfm", "rca", "rca_coltx", "rca_rowtx"]


def das_fn(api, prec):
    return "das" if api == "oct" else ("das_f:das" if prec == "F" else "das:das")


def das_size(rng, big=False):
    return dict(nT=rng.randint(1, 9), nR=rng.randint(1, 9), No=rng.choice([1, 2, 3, 5, 8, 13] + ([40] if big else [])), K=rng.randint(1, 90))


def das(rng, api, met=None, prec="D", size=None, lvl=None, inside=True, env=None, delayvec=None, grempty=False, device=None):
    """Pairs whose truncated travel time is within 1e-7 of an integer are not judged, so geometry is drawn at random."""
    met = met or rng.choice(DAS_MET)
    z = size or das_size(rng)
    nT, nR, No, K = z["nT"], z["nR"], z["No"], z["K"]
    pitch = u(rng, 0.2, 2) * scale(rng)
    cp = u(rng, 500, 6000)
    rca = met.startswith("rca")
    regular = rng.random() < .3
    if rca and regular:
        x0, y0 = (rng.choice([-(n - 1) / 2, -(n - 1) / 2, u(rng, -1, 1) * n, 0.0]) for n in (nT, nR))
        cx, ry = [(i + x0) * pitch for i in range(nT)], [(i + y0) * pitch for i in range(nR)]
        Gt, Gr = [[x, 0.0, 0.0] for x in cx], [[0.0, y, 0.0] for y in ry]
    elif regular:
        x0, y0 = (rng.choice([-(n - 1) / 2, -(n - 1) / 2, u(rng, -1, 1) * n, 0.0]) for n in (nT, nR))
        Gt, Gr = [[(i + x0) * pitch, 0.0, 0.0] for i in range(nT)], [[(i + y0) * pitch, 0.0, 0.0] for i in range(nR)]
        if rng.random() < .3:
            Gr = [[y, x, z] for x, y, z in Gr]
    elif rca:
        # column centres along x, row centres along y, increasing
        cx = sorted(u(rng, -1, 1) * nT * pitch for _ in range(nT))
        ry = sorted(u(rng, -1, 1) * nR * pitch for _ in range(nR))
        Gt = [[x, u(rng, -.2, .2) * pitch, u(rng, -.2, .2) * pitch] for x in cx]
        Gr = [[u(rng, -.2, .2) * pitch, y, u(rng, -.2, .2) * pitch] for y in ry]
    else:
        Gt = [[u(rng, -1, 1) * nT * pitch, u(rng, -1, 1) * pitch, u(rng, -.3, .3) * pitch] for _ in range(nT)]
        Gr = [[u(rng, -1, 1) * nR * pitch, u(rng, -1, 1) * pitch, u(rng, -.3, .3) * pitch] for _ in range(nR)]
    ext = pitch * (max(nT, nR) + 1)
    Ro = [[u(rng, -2, 2) * ext, u(rng, -2, 2) * ext, u(rng, .2, 4) * ext] for _ in range(No)]
    if regular:
        for p in Ro:
            if rng.random() < .7:
                p[1] = 0.0
            if rng.random() < .3:
                p[0] = rng.choice(Gt)[0]
            if rng.random() < .1:
                p[2] = rng.choice([0.0, -p[2]])
    if No > 1 and rng.random() < .2:
        p, q = rng.sample(Ro, 2)
        for k in rng.choice([(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]):
            p[k] = q[k]
    far = None
    if not rca and rng.random() < .35:
        # one element or image point far from the others
        far = rng.choice([Gt, Gt, Gr, Ro])
        far[rng.randrange(len(far))][rng.randrange(2)] += rng.choice([-1, 1]) * u(rng, 3, 12) * ext
    if rca and nT > 1 and nR > 1 and rng.random() < 0.8:
        # points over, beside and beyond the ends of the stripes
        for p in Ro:
            p[0] = rng.choice([u(rng, cx[0], cx[-1]), cx[0] - u(rng, .1, 1) * ext, cx[-1] + u(rng, .1, 1) * ext])
            p[1] = rng.choice([u(rng, ry[0], ry[-1]), ry[0] - u(rng, .1, 1) * ext, ry[-1] + u(rng, .1, 1) * ext])
    if met == "saft":
        Gr = [] if (grempty or rng.random() < 0.4) else Gr
    empty = met != "saft" and grempty
    if empty:
        Gr = []
    ncol = nT if met == "saft" or empty else nT * nR
    # travel times
    lo, hi = [], []
    for p in Ro:
        ds = [math.dist(p, g) for g in Gt]
        if ncol == nT and (met == "saft" or empty):
            t = [2 * d for d in ds]
        elif rca:
            dc = [math.sqrt((g[0] - p[0]) ** 2 + outside(p[1], Gr[0][1], Gr[-1][1]) ** 2 + (g[2] - p[2]) ** 2) for g in Gt]
            dr = [math.sqrt((g[1] - p[1]) ** 2 + outside(p[0], Gt[0][0], Gt[-1][0]) ** 2 + (g[2] - p[2]) ** 2) for g in Gr]
            t = [a + b for a in dc for b in dr]
        else:
            t = [a + b for a in ds for b in (math.dist(p, g) for g in Gr)]
        if far is not None and not inside:
            t = sorted(t)[:max(1, len(t) // 2)]     # the window covers the others
        lo.append(min(t) * 1000 / cp)
        hi.append(max(t) * 1000 / cp or 1e-3)      # a point on the only element
    two = 2.0 if (met == "saft" or empty) else 1.0
    vec = (rng.random() < 0.4) if delayvec is None else delayvec
    if inside:
        if K < 4:
            K += 4
        if vec:
            span = max(h - l for h, l in zip(hi, lo))
            dt = span / (K - 3) * u(rng, 1.0, 1.4) + max(hi) * 10 ** u(rng, -4, -2)
            d = [-(l - u(rng, .2, 1.6) * dt) / two for l in lo]
        else:
            span = max(hi) - min(lo)
            dt = span / (K - 3) * u(rng, 1.0, 1.4) + max(hi) * 10 ** u(rng, -4, -2)
            d = [-x for x in ramped(rng, (min(lo) - u(rng, .2, 1.6) * dt) / two, len(lo), dt)]
    else:
        span = max(hi) - min(lo)
        k = rng.choice(["early", "late", "both", "all"])
        f = {"early": 1.6, "late": 0.5, "both": 0.4, "all": 1.0}[k]
        dt = max(span, max(hi) * .02) / max(1, K) * f * u(rng, .9, 1.1)
        off = {"early": span * .35 + 2 * dt, "late": 0.0, "both": span * .3, "all": 3 * span + 3 * max(hi)}[k]
        d = [-(min(lo) + off) / two] if not vec else [-(l + off * u(rng, .7, 1.3)) / two for l in lo]
    Y = Arg(prec, K, ncol, data(rng, K, ncol))
    dk = Arg(prec, 1, len(d), d) if (len(d) == 1 or rng.random() < .5) else Arg(prec, len(d), 1, d)
    gr = mat(Gr, prec) if Gr else (Arg("N") if prec == "D" and api == "oct" and rng.random() < .5 else Arg(prec, 0, rng.choice([0, 3])))
    if api == "py" and not Gr:
        gr = Arg(prec, 0, 3)
    if api == "py":
        tail = [Arg("FLOAT", 1, 1, [dt]), dk, Arg("FLOAT", 1, 1, [cp])]
    else:
        tail = [row(dt) if rng.random() < .5 else Arg(prec, 1, 1, [dt]), dk, row(cp)]
    args = [Y, mat(Gt, prec), gr, mat(Ro, prec)] + tail + [S(met)]
    if lvl or api == "py":
        args.append(S(lvl or "stop"))
        if device or api == "py":
            args.append(S(device or "cpu"))
            if rng.random() < .3:
                args.append(S(rng.choice(["", "quiet"])))
    return Call(api, das_fn(api, prec), args, 2 if api == "oct" else 1, env)


def das_uni(rng, met=None, prec="D", inside=True, grempty=False, size=None, delayvec=None):
    """Uniform grids with decimal steps, so that the number of points hangs on rounding, or with a maximum off the grid."""
    met = met or rng.choice(DAS_MET)
    z = size or das_size(rng)
    rca = met.startswith("rca")
    cp = u(rng, 500, 6000)

    def axis(n, step, lo, ongrid):
        # decimals, as written in a script: (max - min)/step is then often a little less than a whole number
        lo = round(rng.choice([lo, round(lo / step) * step, 0.0 if rng.random() < .5 else lo, round(lo, 1)]), 6)
        return [lo, step, round(lo + (n - 1) * step, 6) + (0.0 if ongrid else u(rng, .1, .8) * step)]
    r6 = lambda x: round(x, 6)
    step = rng.choice([.1, .1, .3, .2, .3, .6, .7, .5, r6(u(rng, .1, 1.5))])
    on = rca or rng.random() < .8
    gt = axis(z["nT"], step, r6(-u(rng, 0, 1) * z["nT"] * step), on)
    gr = axis(z["nR"], rng.choice([step, .1, .4]), r6(-u(rng, 0, 1) * z["nR"] * step), on)
    ext = step * (max(z["nT"], z["nR"]) + 1)
    n3 = rng.choice([(3, 1, 4), (2, 3, 4), (1, 1, 1), (4, 4, 4), (5, 2, 3), (1, 7, 1), (1, 1, 65), (2, 2, 2)]) if z["No"] > 1 else (1, 1, 1)
    st = [r6(ext * u(rng, .1, .8)) for _ in range(3)] if rng.random() < .6 else [rng.choice([.1, .2, .3, .6]) for _ in range(3)]
    on = rng.random() < .7
    R = [axis(n3[0], st[0], r6(-u(rng, 0, 2) * ext), on), axis(n3[1], st[1], r6(-u(rng, 0, 2) * ext), on),
         axis(n3[2], st[2], r6(u(rng, .2, 2) * ext), on)]
    pts = lambda g, n: [g[0] + i * g[1] for i in range(n)]
    T, Rr = pts(gt, z["nT"]), pts(gr, z["nR"])
    Ro = [[x, y, w] for x in pts(R[0], n3[0]) for w in pts(R[2], n3[2]) for y in pts(R[1], n3[1])]
    empty = grempty or (met == "saft" and rng.random() < .4)
    saft = met == "saft" or empty
    lo, hi = [], []
    for p in Ro:
        if saft:
            t = [2 * math.dist(p, [x, 0, 0]) for x in T]
        elif rca:
            t = [math.sqrt((x - p[0]) ** 2 + outside(p[1], Rr[0], Rr[-1]) ** 2 + p[2] ** 2)
                 + math.sqrt((y - p[1]) ** 2 + outside(p[0], T[0], T[-1]) ** 2 + p[2] ** 2) for x in T for y in Rr]
        else:
            t = [math.dist(p, [x, 0, 0]) + math.dist(p, [y, 0, 0]) for x in T for y in Rr]
        lo.append(min(t) * 1000 / cp)
        hi.append(max(t) * 1000 / cp or 1e-3)      # a point on the only element
    two = 2.0 if saft else 1.0
    vec = (rng.random() < .4) if delayvec is None else delayvec
    K = max(z["K"], 6)
    span = max(h - l for h, l in zip(hi, lo)) if vec else max(hi) - min(lo)
    dt = (span / (K - 3) + max(hi) * 10 ** u(rng, -4, -2)) * (u(rng, 1.0, 1.4) if inside else u(rng, .3, .8))
    off = 0.0 if inside else rng.choice([0.0, span * .3, 2 * span])
    d = [-(l + off - u(rng, .2, 1.6) * dt) / two for l in lo] if vec else [-(min(lo) + off - u(rng, .2, 1.6) * dt) / two]
    ncol = len(T) * (1 if saft else len(Rr))
    Y = Arg(prec, K, ncol, data(rng, K, ncol))
    vecarg = lambda v: Arg(prec, 1, 3, v) if rng.random() < .5 else Arg(prec, 3, 1, v)
    dk = Arg(prec, 1, len(d), d) if rng.random() < .5 else Arg(prec, len(d), 1, d)
    return Call("octcl", "das_uni", [Y, vecarg(gt), Arg(prec, 0, 0) if empty else vecarg(gr), mat(R, prec),
                                     Arg(prec, 1, 1, [dt]), dk, Arg(prec, 1, 1, [cp]), S(met)], 1)


def outside(x, lo, hi):
    return lo - x if x < lo else (x - hi if x > hi else 0.0)


# ---------------------------------------------------------------- convolution

def cdims(rng, M=None, N=None, K=None):
    return M or rng.choice([1, 2, 3, 5, 8, 13, 16, 24, 31]), N or rng.choice([1, 2, 3, 4, 7, 9, 12]), K or rng.choice([1, 2, 3, 4, 7, 9, 16, 21])


def data(rng, r, c):
    """column-major values of an r x c array: dense, or with the zeros, constants and scales real signals have"""
    n = r * c
    v = [u(rng, -1, 1) for _ in range(n)]
    k = rng.choice(["dense"] * 5 + ["sparse", "headtail", "zerocol", "const", "zero", "int", "scale", "pulse", "ramp", "bits"])
    if k == "sparse":
        v = [x if rng.random() < .4 else 0.0 for x in v]
    elif k == "headtail":
        a, b = rng.randint(0, (r + 1) // 2), rng.randint(0, (r + 1) // 2)
        v = [0.0 if i % r < a or i % r >= r - b else x for i, x in enumerate(v)]
    elif k == "zerocol":
        z = [rng.random() < .5 for _ in range(c)]
        v = [0.0 if z[i // r] else x for i, x in enumerate(v)]
    elif k == "const":
        v = [rng.choice([1.0, -2.0, .5])] * n
    elif k == "zero":
        v = [0.0] * n
    elif k == "int":
        v = [float(rng.randint(-3, 3)) for _ in v]
    elif k == "scale":
        s = rng.choice([1e-6, 1e-3, 1e4])
        v = [x * s for x in v]
    elif k == "ramp":
        a, b = rng.randint(-8, 8) / 4, rng.randint(-8, 8) / 4
        v = [a + b * i for i in range(n)]
    elif k == "bits":
        v = [float(rng.randint(0, 1)) for _ in v]
    elif k == "pulse":
        v = [0.0] * n
        for j in range(c):
            v[j * r + rng.randrange(r)] = u(rng, -1, 1)
    return v


def rnd(rng, r, c, kind="D"):
    return Arg(kind, r, c, data(rng, r, c))


def conv_operands(rng, api, dims=None, vec=None):
    M, N, K = dims or cdims(rng)
    vec = rng.choice([None, "row", "col"]) if vec is None else vec
    A = rnd(rng, M, N)
    if vec is None or vec == "mat":
        B = rnd(rng, K, N)
        if K == 1 and N > 1:
            B = rnd(rng, N, 1)      # a 1 x N matrix is a vector: keep its meaning explicit
            K = N
        elif N == 1:
            B = rnd(rng, K, 1)
    elif vec == "row":
        B = rnd(rng, 1, K)
    else:
        B = rnd(rng, K, 1)
    return A, B, M, N, K


def conv(rng, fn, api="oct", dims=None, vec=None, block=None, env=None, wisdom=None, nout=1, store=""):
    A, B, M, N, K = conv_operands(rng, api, dims, vec)
    args = [A, B]
    if fn == "fftconv_ola":
        args.append(row(block or rng.randint(1, M)))
    if wisdom:
        args.append(ref(wisdom))
    name = "fftconv_p:fftconv_p" if api == "py" else fn
    return Call(api, name, args, nout, env, store=store)


def setvar(name, a, api="oct"):
    return Call(api, "@set", [S(name), a], 0)


def getvar(name, api="oct"):
    return Call(api, "@get", [S(name)], 1)


def inplace(rng, fn, name, mode=None, dims=None, vec=None, block=None, env=None, wisdom=None, planes=None):
    """(the call, size of the output matrix)"""
    if fn == "sum_fftconv":
        H, U, M, N, K, L = sum_operands(rng, dims, planes)
        args = [H, U]
    else:
        A, B, M, N, K = conv_operands(rng, "oct", dims, vec)
        args = [A, B]
    if fn == "fftconv_ola":
        args.append(row(block or rng.randint(1, M)))
    args.append(ref(name))
    back = len(args)
    if mode:
        args.append(S(mode))
    if wisdom:
        args.append(ref(wisdom))
    return Call("oct", fn, args, 0, env, into=name, back=back), (M + K - 1, N)


def sum_operands(rng, dims=None, planes=None):
    M, N, K = dims or cdims(rng)
    L = planes or rng.randint(2, 5)         # Octave drops a trailing dimension of one
    H = Arg("D3", M, N, data(rng, M, N * L), l=L)
    return H, rnd(rng, K, L), M, N, K, L


def sumconv(rng, dims=None, planes=None, env=None, wisdom=None):
    H, U, M, N, K, L = sum_operands(rng, dims, planes)
    return Call("oct", "sum_fftconv", [H, U] + ([ref(wisdom)] if wisdom else []), 1, env)


# ---------------------------------------------------------------- sub-matrix copy and add

def submat(rng, fn, name, shape=None, env=None, full=False):
    """(set, call) for a destination of the given shape"""
    M, N = shape or (rng.randint(1, 12), rng.randint(1, 12))
    A = rnd(rng, M, N)
    r0 = rng.randint(1, M)
    r1 = rng.randint(r0, M)
    c0 = rng.randint(1, N)
    c1 = rng.randint(c0, N)
    if full:
        r0, r1, c0, c1 = 1, M, 1, N
    extra = rng.choice([0, 0, 0, 1, 3])
    B = rnd(rng, r1 - r0 + 1 + extra, c1 - c0 + 1)
    ra = row(r0, r1) if rng.random() < .5 else colv(r0, r1)
    return setvar(name, A), Call("oct", fn, [ref(name), ra, row(c0, c1), B], 0, env, into=name, back=1)


# ---------------------------------------------------------------- analytic responses

def analytic(rng, fn, No=None, nt=None, env=None):
    cp = u(rng, 500, 6000)
    f = scale(rng)
    if fn == "rect_sir":
        g = [u(rng, 1, 12) * f, u(rng, 1, 12) * f]
        half = math.hypot(*g) / 2
        hx, hy = g[0] / 2, g[1] / 2
    else:
        g = [u(rng, 1, 8) * f]
        half = hx = hy = g[0]
    No = No or rng.choice([1, 2, 3, 5])
    pts = []
    for _ in range(No):
        k = rng.choice(["in", "x", "y", "xy", "axis", "edge", "plane", "far", "surface"])
        x = {"in": u(rng, -.7, .7) * hx, "surface": u(rng, -.6, .6) * hx, "x": rng.choice([-1, 1]) * u(rng, 1.1, 2) * hx, "y": u(rng, -.9, .9) * hx, "axis": 0.0}.get(k)
        y = {"in": u(rng, -.7, .7) * hy, "surface": u(rng, -.6, .6) * hy, "y": rng.choice([-1, 1]) * u(rng, 1.1, 2) * hy, "x": u(rng, -.9, .9) * hy, "axis": 0.0}.get(k)
        if k == "edge":
            x, y = rng.choice([-1, 1]) * hx, u(rng, -.5, .5) * hy
            if fn != "rect_sir":
                x, y = u(rng, .3, .99) * hx, 0.0
        if x is None:
            x, y = rng.choice([-1, 1]) * u(rng, 1.05, 2) * hx, rng.choice([-1, 1]) * u(rng, 1.05, 2) * hy
        z = u(rng, .2, 5) * half
        if k in ("plane", "surface"):
            z = 0.0
        if k == "far":
            z *= 6
        pts.append([x, y, z])
    if No > 1 and rng.random() < .2:
        p, q = rng.sample(pts, 2)
        for k in rng.choice([(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]):
            p[k] = q[k]
    ext = half
    nt = nt or rng.randint(20, 110)
    lo = [max(0.0, math.sqrt(sum(c * c for c in p)) - ext) * 1000 / cp for p in pts]
    hi = [(math.sqrt(sum(c * c for c in p)) + ext) * 1000 / cp for p in pts]
    vec = rng.random() < .5
    span = max(h - l for h, l in zip(hi, lo)) if vec else max(hi) - min(lo)
    dt = span / nt * u(rng, .7, 1.6)
    early = u(rng, 0, .8) * nt * dt if rng.random() < .15 else 0.0
    d = [l - u(rng, -8, 12) * dt - early for l in lo] if vec else [min(lo) - u(rng, -4, 10) * dt - early]
    darg = row(*d) if rng.random() < .5 else colv(*d)
    args = [mat(pts), row(*g), row(dt, nt), darg, row(velocity(rng, pts), cp)]
    if fn == "scirc_sir":
        args.append(row(rng.choice([1, 2, 3, 5, 10])))
    return Call("oct", fn, args, 1, env)


def att(rng, No=None, nt=None, alpha=None):
    No = No or rng.choice([1, 2, 3, 5])
    cp = u(rng, 500, 6000)
    pts = [[u(rng, -10, 10), u(rng, -10, 10), u(rng, 0, 40)] for _ in range(No)]
    nt = nt or rng.randint(2, 100)
    tr = [math.sqrt(sum(c * c for c in p)) * 1000 / cp for p in pts]
    dt = u(rng, .3, 1.4) * max(tr) / nt
    vec = rng.random() < .5
    d = [t * u(rng, 0, 1.1) for t in tr] if vec else [min(tr) * u(rng, -.2, 1)]
    return Call("oct", "dream_att", [mat(pts), row(dt, nt), row(*d) if rng.random() < .5 else colv(*d),
                                     row(cp, u(rng, .1, 8) if alpha is None else alpha)], 1)


def apodwin(rng, met=None, n=None):
    met = met or rng.choice(AMET)
    n = n or rng.randint(1, 40)
    a = row(*[u(rng, -1, 2) for _ in range(n)]) if met == "ud" else row(n)
    return Call("oct", "dream_apodwin", [S(met), a, row(apod_par(rng))], 1)


# ---------------------------------------------------------------- variations

def numeric_args(c):
    return [i for i, a in enumerate(c.args) if a.kind in ("D", "F", "D3", "FLOAT") and a.v]


def vary(rng, c, only=None):
    """the call with one thing changed, so that a result remembered for too few of the arguments shows"""
    d = Call.load(c.dump())
    A = d.args
    fn = c.fn.split(":")[-1]
    i = rng.choice(numeric_args(c)) if only is None else only
    a = A[i]
    v = list(a.v)
    arr = fn.startswith("dream_arr") and fn != "dream_arr_annu"
    samp = 3 if arr else 1 if fn == "dream_att" else 2
    if fn.startswith("dream") and fn != "dream_apodwin" or fn in ("rect_sir", "circ_sir", "scirc_sir"):
        k = rng.randrange(len(v))
        f = u(rng, .75, 1.3)
        if i == samp:
            last = len(v) - 1
            if k == last:
                v[k] = float(max(1, int(v[k]) + rng.choice([-1, 1, 2, -3])))
            else:
                v[k] *= u(rng, 1.01, 1.3)       # larger steps: fewer surface elements, an earlier end
        elif i == 1 and fn != "dream_att":      # geometry
            if fn in ("dreamcylind", "dream_arr_cylind"):
                v[k] *= u(rng, 1.05, 1.4) if k == 2 else u(rng, .7, .95) if k == 1 else f
            elif fn == "dreamsphere":
                v[k] *= u(rng, 1.05, 1.4) if k == 1 else u(rng, .7, .95)
            elif fn == "dream_arr_annu":
                k = len(v) - 1
                v[k] *= u(rng, 1.05, 1.3)
            else:
                v[k] *= f
        elif fn == "scirc_sir" and i == 5:
            v[k] = float(int(v[k]) + 1)
        elif i == 0 or (arr and i == 2):
            if arr and i == 2 and a.r > 2 and rng.random() < .6:       # the extent of the array stays
                x = v[:a.r] if rng.random() < .7 else v[a.r:2 * a.r]
                k = (0 if x == v[:a.r] else a.r) + rng.choice([j for j in range(a.r) if abs(x[j]) < max(abs(y) for y in x)] or [0])
                f = u(rng, .3, .95)
            v[k] = v[k] * f + (u(rng, .01, .2) if fn not in ("rect_sir", "circ_sir", "scirc_sir") else 0.0)
        else:
            v[k] *= f
    elif fn in ("das", "das_uni"):
        k = rng.randrange(len(v))
        if only is None and (fn == "das_uni" and i in (1, 2, 3) or rng.random() < .4):
            i, a = 0, A[0]
            v, k = list(a.v), rng.randrange(len(a.v))
            if rng.random() < .5:
                v = data(rng, a.r, a.c)
        if i in (1, 2) and "rca" in "".join(x.s for x in A if x.kind == "S"):
            k = len(v) // 3 * 2 + rng.randrange(len(v) // 3)    # z keeps the order of rows and columns
        v[k] = v[k] * u(rng, .8, 1.25) + (.01 if i < 4 else 0.0)
    elif fn == "dream_apodwin":
        if A[0].s == "ud" or i == 2:
            k = rng.randrange(len(v))
            v[k] = v[k] * u(rng, .8, 1.25)
        else:
            v[0] = v[0] + 1
    elif fn == "fftconv_ola" and i == 2:
        v[0] = max(1.0, min(float(A[0].r), v[0] + rng.choice([-1, 1])))
    else:
        k = rng.randrange(len(v))
        v[k] = v[k] + u(rng, .1, 1)
    A[i] = Arg(a.kind, a.r, a.c, v, l=a.l)
    return d


def family(rng, c, n=None):
    """a session: the call, variations of it and the call again; often without worker threads"""
    if c.env is not None and rng.random() < .5:
        c.env = dict(c.env, DREAM_NUM_THREADS="1")
    out = [c]
    for _ in range(n or rng.choice([1, 2, 3])):
        out.append(vary(rng, rng.choice(out)))
    if rng.random() < .5:
        out.append(Call.load(c.dump()))
    return out


def as_range(a):
    """the Octave range expression that yields exactly the values of a row vector, or None"""
    if a.r != 1 or a.c < 2 or any(x != x or math.isinf(x) for x in a.v):
        return None
    v0, inc = a.v[0], a.v[1] - a.v[0]
    if any(v0 + k * inc != x for k, x in enumerate(a.v)):
        return None
    if inc == 0:
        return "%.17g + 0 * (1:%d)" % (v0, a.c) if v0 != 0 else "0 * (1:%d)" % a.c
    return "%.17g:%.17g:%.17g" % (v0, inc, a.v[-1] + inc / 4)


def disguise(rng, c, p=.5):
    """the same call with some of its arguments in another representation of the same values (singles and
    Python float32: of values that singles have, or else of the nearest single)"""
    das = c.fn.split(":")[0].startswith("das")
    args = []
    for k, a in enumerate(c.args):
        a = Arg(a.kind, a.r, a.c, a.v, a.s, a.l)
        kinds = []
        typed = das and k in (0, 1, 2, 3, 5)      # one precision for data, geometry and delays
        if k + 1 != c.back and a.kind in ("D", "FLOAT") and rng.random() < p and len(a.v) > 0:
            whole = all(x == int(x) and abs(x) < 2 ** 31 for x in a.v if not (x != x or math.isinf(x))) and not any(x != x or math.isinf(x) for x in a.v)
            if a.kind == "FLOAT":
                kinds = ["INT"] if whole else []
            else:
                if c.api.startswith("oct"):
                    if as_range(a):
                        kinds += ["RANGE"] * 3
                else:
                    kinds += ["K"] if a.r > 1 and a.c > 1 else []
                if not typed:
                    kinds += (["I"] if whole else []) + (["B"] if all(x in (0, 1) for x in a.v) else [])
                    if all(struct.unpack("f", struct.pack("f", x))[0] == x for x in a.v if abs(x) < 1e38) or rng.random() < .3:
                        if all(x == x and abs(x) < 1e38 for x in a.v):
                            kinds += ["F"]
        if kinds:
            a.kind = rng.choice(kinds)
            if a.kind == "RANGE":
                a.s = as_range(a)
            elif a.kind == "F":
                a.v = [struct.unpack("f", struct.pack("f", x))[0] for x in a.v]
        args.append(a)
    d = Call(c.api, c.fn, args, c.nout, c.env, c.into, c.back, c.store, c.meta, c.fresh)
    return d
