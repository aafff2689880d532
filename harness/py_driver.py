# Generic Python call driver: same protocol as oct_driver.m, on the real Python extension modules.
import sys, os, importlib, signal, ctypes
import numpy as np
infile, outfile, sofile = sys.argv[1:4]
mods = {}
libc = ctypes.CDLL(None)
def sigstate():
    # struct sigaction starts with the handler's address
    r = []
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGABRT, signal.SIGHUP, signal.SIGQUIT, signal.SIGUSR1, signal.SIGUSR2, signal.SIGPIPE):
        b = ctypes.create_string_buffer(256)
        libc.sigaction(int(s), None, b)
        r.append(int.from_bytes(b.raw[:8], "little"))
    return r
libc.signal.restype = ctypes.c_void_p
libc.signal.argtypes = [ctypes.c_int, ctypes.c_void_p]
# distinct handlers that do nothing (2 to 4)
OWN = {k: ctypes.cast(getattr(libc, f), ctypes.c_void_p).value for k, f in ((2, "abs"), (3, "toupper"), (4, "isalpha"))}
def handlers(h):
    return [libc.signal(int(s), OWN.get(x, x)) or 0 for s, x in zip((signal.SIGINT, signal.SIGTERM, signal.SIGABRT), h)]
def sched_begin():
    if hasattr(libc, "dream_sched_begin"): libc.dream_sched_begin()
def sched_end():
    o = (ctypes.c_long * 5)()
    if hasattr(libc, "dream_sched_end"): libc.dream_sched_end(o)
    return list(o)
def fun(name):
    # "das.das_f" = function das of module das_f
    mod, f = (name.split(":") + [name])[:2] if ":" in name else (name, name)
    if mod not in mods:
        mods[mod] = importlib.import_module(mod)
    return getattr(mods[mod], f)
def mkarg(h, d):
    t = h.split(" ")
    if t[0] == "S": return d
    if t[0] in "DFIBCK" and len(t[0]) == 1:
        r, c = int(t[1]), int(t[2])
        v = np.array([float(x) for x in d.split()], dtype=np.float64).reshape((r, c), order="F")
        if t[0] == "K": return np.ascontiguousarray(v)
        v = np.asfortranarray(v)
        if t[0] == "F": v = np.asfortranarray(v.astype(np.float32))
        if t[0] == "I": v = np.asfortranarray(v.astype(np.int32))
        if t[0] == "B": v = np.asfortranarray(v != 0)
        if t[0] == "C": v = np.asfortranarray(v + 1j)
        return v
    if t[0] == "V1F": return np.array([float(x) for x in d.split()], dtype=np.float32)
    if t[0] == "V1": return np.array([float(x) for x in d.split()], dtype=np.float64)
    if t[0] == "N": return np.zeros((0, 0), order="F")
    if t[0] == "NONE": return None
    if t[0] == "CELL": return {"b": 2}
    if t[0] == "STRUCT": return {"a": 1}
    if t[0] == "ND": return np.zeros((2, 3, 2), order="F")
    if t[0] == "INT": return int(float(d))
    if t[0] == "BOOL": return d == "1"
    if t[0] == "FLOAT": return float(d)
    raise ValueError(h)
def same(x, y):
    if isinstance(x, np.ndarray):
        return x.dtype == y.dtype and x.shape == y.shape and bool(np.all((x == y) | ((x != x) & (y != y))))
    return x == y
def putval(fo, v):
    if isinstance(v, np.ndarray):
        w = v.astype(np.float64)
        if w.ndim == 1: w = w.reshape((-1, 1))
        fo.write("VAL %s %d %d\n" % (v.dtype, w.shape[0], w.shape[1] if w.ndim > 1 else 1))
        fo.write(" " + " ".join("%.17g" % x for x in w.flatten(order="F")) + "\n")
    elif isinstance(v, str):
        fo.write("VSTR %s\n" % v.replace("\n", "\\n"))
    else:
        fo.write("VOTHER %s\n" % type(v))
fi = open(infile); fo = open(outfile, "w")
prev, count = [], 0
while True:
    l = fi.readline()
    if not l: break
    t = l.rstrip("\n").split(" ")
    if t[0] != "CALL": continue
    id, fn, nout, nargs, nenv = t[1], t[2], int(t[3]), int(t[4]), int(t[5])
    for k in range(nenv):
        n, v = fi.readline().rstrip("\n").split("=", 1)
        if v == "": os.environ.pop(n, None)
        else: os.environ[n] = v
    args, saved = [], []
    for k in range(nargs):
        h = fi.readline().rstrip("\n"); d = fi.readline().rstrip("\n")
        args.append(mkarg(h, d)); saved.append(mkarg(h, d))
    # now and then the caller's own buffers are used again with other content
    count += 1
    for k, p in enumerate(prev[:nargs]):
        if count % 3 and isinstance(p, np.ndarray) and isinstance(args[k], np.ndarray) and p.dtype == args[k].dtype and p.shape == args[k].shape \
           and p.strides == args[k].strides:
            np.copyto(p, args[k])
            args[k] = p
    prev = args
    fo.write("BEGIN %s\n" % id); fo.flush()
    sys.stdout.flush()
    s0 = os.stat(sofile).st_size
    ok, msg, o = True, "", []
    hs = os.environ.get("SESSION_HANDLERS")
    if hs: hs = handlers([int(x) for x in hs.split()])
    h0 = sigstate()
    try:
        f = fun(fn)
        sched_begin()
        r = f(*args)
        o = list(r) if isinstance(r, tuple) else ([] if r is None else [r])
    except KeyboardInterrupt as e:
        ok, msg = False, "KeyboardInterrupt"
    except Exception as e:
        ok, msg = False, type(e).__name__ + ": " + str(e)
    sched = sched_end()
    h1 = sigstate()
    if hs: handlers(hs)
    sys.stdout.flush()
    s1 = os.stat(sofile).st_size
    fo.write("RES %s %d %d %d\n" % (id, ok, s0, s1))
    fo.write("MSG %s\n" % msg.replace("\n", "\\n").replace("\r", ""))
    fo.write("SAME %s\n" % " ".join("%d" % same(x, y) for x, y in zip(args, saved)))
    fo.write("SIG %s\n" % " ".join("%d" % x for x in h0 + h1))
    fo.write("SCHED %s\n" % " ".join("%d" % x for x in sched))
    if ok:
        for v in o: putval(fo, v)
    fo.write("END\n"); fo.flush()
fo.close()
