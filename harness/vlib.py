"""Common machinery: build DREAM from /repo, run calls on the real bindings, record traces, run TLC on them."""
import hashlib, json, math, os, re, shutil, signal, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DREAM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
DREAM = os.path.join(BUILD, "dream")
DREAM_MT = os.path.join(BUILD, "dream_mt")      # the same sources, every memory access a scheduling point
DREAM_CL = os.path.join(BUILD, "dream_cl")      # with the OpenCL back ends
DREAM_MEX = os.path.join(BUILD, "dream_mex")    # the MATLAB gateways
DREAM_JL = os.path.join(BUILD, "dream_jl")      # the Julia gateways
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def clean_env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["LANG"] = "C.UTF-8"
    for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
        e.pop(k, None)
    return e


def fresh_tree(dream):
    """ninja compares times; throw the build away when a source changed without becoming newer than the last build."""
    man = os.path.join(BUILD, os.path.basename(dream) + "-sources.json")
    now = {}
    for d in ("src", "include", "oct", "extra_src", "python", "cmake", "opencl", "mex", "julia", "m_files"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            for n in files:
                p = os.path.join(root, n)
                if os.path.isfile(p):
                    now[p] = [hashlib.sha1(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns]
    p = os.path.join(REPO, "CMakeLists.txt")
    now[p] = [hashlib.sha1(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns]
    if os.path.isdir(dream):
        try:
            old = json.load(open(man))
        except (OSError, ValueError):
            old = None
        t = old.get("time", 0) if old else 0
        bad = old is None or set(old["files"]) - set(now)
        bad = bad or any(old["files"].get(k, [None])[0] != v[0] and v[1] <= t for k, v in now.items())
        if bad:
            log("sources changed without newer times: building from scratch")
            shutil.rmtree(dream, ignore_errors=True)
    os.makedirs(BUILD, exist_ok=True)
    json.dump({"time": time.time_ns(), "files": now}, open(man, "w"))


_make_lock = threading.Lock()


def make(name, src, cmd):
    """build a helper once; it appears under its name only when it is complete (sessions start in parallel)"""
    out, src = os.path.join(BUILD, name), os.path.join(HARN, src)
    with _make_lock:
        if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(src):
            return out
        os.makedirs(BUILD, exist_ok=True)
        d = os.path.join(BUILD, "make-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, name)
        r = subprocess.run(cmd(tmp, src), cwd=d, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise CheckError("%s was not built:\n%s" % (name, r.stdout))
        os.utime(tmp)
        os.replace(tmp, out)
        shutil.rmtree(d, ignore_errors=True)
    return out


def build_sigstate():
    return make("sigstate.oct", "sigstate.cc", lambda o, s: ["mkoctfile", "-o", o, s])


def build(targets, mt=False, cl=False):
    """Configure once, build the named ninja targets from the current /repo tree."""
    t0 = time.time()
    e = clean_env()
    dream = DREAM_MT if mt else DREAM_CL if cl else DREAM
    fresh_tree(dream)
    os.makedirs(dream, exist_ok=True)
    sg = threading.Thread(target=build_sigstate)
    sg.start()
    # the OpenCL kernels are embedded when cmake runs
    if cl or not os.path.exists(os.path.join(dream, "build.ninja")):
        r = subprocess.run(
            ["cmake", "-S", REPO, "-B", dream, "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
             "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=-O1 -DNDEBUG -Wno-error",
             "-DPython_EXECUTABLE=/usr/local/bin/python3", "-DBUILD_OCT=ON", "-DBUILD_PYTHON=ON", "-DBUILD_TESTS=OFF",
             "-DBUILD_MEX=OFF", "-DBUILD_JULIA=OFF", "-DBUILD_USERMAN=OFF", "-DUSE_OPENCL=" + ("ON" if cl else "OFF"), "-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF"] + (["-DCMAKE_CXX_COMPILER_LAUNCHER=" + os.path.join(HARN, "mtwrap.sh")] if mt else []),
            env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("cmake failed:\n" + r.stdout[-3000:])
    r = subprocess.run(["ninja", "-C", dream] + sorted(targets), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("build failed:\n" + r.stdout[-3000:])
    sg.join()
    build_sigstate()
    log("built %d targets in %.1fs" % (len(targets), time.time() - t0))


def build_java():
    d = os.path.join(BUILD, "java")
    src = os.path.join(VERIF, "java", "DReal.java")
    cls = os.path.join(d, "DReal.class")
    with _make_lock:
        if os.path.exists(cls) and os.path.getmtime(cls) > os.path.getmtime(src):
            return d
        t = os.path.join(BUILD, "make-java-%d" % os.getpid())
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        r = subprocess.run(["javac", "-cp", JAR, "-d", t, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("javac failed:\n" + r.stdout)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(t, d)
    return d


def build_shim():
    return make("sched.so", "sched.c", lambda o, s: ["gcc", "-O2", "-g", "-fPIC", "-shared", "-o", o, s, "-ldl", "-lpthread"])


def build_clshim():
    """OpenCL library calls asking for a GPU get the CPU device of the installed implementation (pocl)"""
    return make("clshim.so", "clshim.c", lambda o, s: ["gcc", "-O2", "-fPIC", "-shared", "-DCL_TARGET_OPENCL_VERSION=120", "-o", o, s, "-ldl"])


# ---------------------------------------------------------------- calls

def fnum(x):
    if x != x:
        return "NaN"
    if math.isinf(x):
        return "Inf" if x > 0 else "-Inf"
    return "%.17g" % x


class Arg:
    """kind D/F/I/B/C/K/V1/RANGE with rows, columns, column-major values; S with a string; others opaque."""

    def __init__(self, kind, r=0, c=0, v=(), s="", l=0):
        self.kind, self.r, self.c, self.v, self.s, self.l = kind, r, c, [float(x) for x in v], s, l

    def lines(self):
        if self.kind in ("D", "F", "I", "B", "C", "K", "V1", "V1F"):
            return "%s %d %d" % (self.kind, self.r, self.c), " ".join(fnum(x) for x in self.v)
        if self.kind == "D3":
            return "D3 %d %d %d" % (self.r, self.c, self.l), " ".join(fnum(x) for x in self.v)
        if self.kind in ("FLOAT", "INT", "BOOL"):
            return self.kind, fnum(self.v[0])
        return self.kind, self.s

    def json(self):
        if self.kind == "D3":
            return {"t": "D", "r": self.r, "c": self.c, "l": self.l, "v": [jnum(x) for x in self.v]}
        if self.kind in ("F", "V1F"):
            return {"t": "F", "r": self.r, "c": self.c, "v": [jnum(struct.unpack("f", struct.pack("f", x))[0]) for x in self.v]}
        if self.kind == "RANGE":
            return {"t": "D", "r": self.r, "c": self.c, "v": [jnum(x) for x in self.v]}
        if self.kind == "N":
            return {"t": "D", "r": 0, "c": 0, "v": []}
        t = {"D": "D", "K": "D", "V1": "D", "V1F": "F", "FLOAT": "D", "INT": "D", "BOOL": "D"}.get(self.kind, self.kind)
        if self.kind in ("D", "F", "I", "B", "C", "K", "V1", "V1F", "FLOAT", "INT", "BOOL"):
            return {"t": t, "r": self.r, "c": self.c, "v": [jnum(x) for x in self.v]}
        return {"t": t, "s": self.s}

    def key(self):
        return (self.kind, self.r, self.c, tuple(self.v), self.s)


def jnum(x):
    if x != x:
        return "NaN"
    if math.isinf(x):
        return "Infinity" if x > 0 else "-Infinity"
    return repr(float(x))


def S(s):
    return Arg("S", s=s)


def ref(name):
    return Arg("REF", s=name)


def row(*v):
    return Arg("D", 1, len(v), v)


def colv(*v):
    return Arg("D", len(v), 1, v)


def num(api, x):
    """a scalar parameter: a 1x1 matrix in Octave, a float in Python"""
    return Arg("FLOAT", 1, 1, [x]) if api == "py" else row(x)


def mat(rows, kind="D"):
    """matrix from a list of rows"""
    r = len(rows)
    c = len(rows[0]) if r else 0
    return Arg(kind, r, c, [rows[i][j] for j in range(c) for i in range(r)])


def cm(r, c, v, kind="D"):
    return Arg(kind, r, c, v)


NUM0 = Arg("D", 0, 0)


class Call:
    """One call. into: name of the session variable the call works on in place (its argument number is back);
    store: session variable that keeps the last output (a wisdom string)."""

    def __init__(self, api, fn, args, nout=1, env=None, into="", back=0, store="", meta=None, fresh=False):
        self.api, self.fn, self.args, self.nout, self.env = api, fn, list(args), nout, dict(env or {})
        self.into, self.back, self.store = into, back, store
        self.meta = meta or {}
        self.fresh = fresh

    def text(self, cid):
        out = ["CALL %s %s %d %d %d %d %s" % (cid, self.fn, self.nout, len(self.args), len(self.env), self.back, self.store or "-")]
        for k in sorted(self.env):
            out.append("%s=%s" % (k, self.env[k]))
        for a in self.args:
            out += list(a.lines())
        return "\n".join(out) + "\n"

    def dump(self):
        return {"api": self.api, "fn": self.fn, "nout": self.nout, "env": self.env, "into": self.into, "back": self.back,
                "store": self.store, "meta": self.meta, "fresh": self.fresh,
                "args": [[a.kind, a.r, a.c, a.v, a.s, a.l] for a in self.args]}

    @staticmethod
    def load(d):
        return Call(d["api"], d["fn"], [Arg(k, r, c, v, s, l) for k, r, c, v, s, l in d["args"]], d["nout"], d["env"], d["into"],
                    d["back"], d["store"], d.get("meta"), d.get("fresh"))

    def with_env(self, **kw):
        c = Call.load(self.dump())
        c.env.update(kw)
        return c


class Result:
    def __init__(self):
        self.ok, self.msg, self.out, self.same, self.outs, self.crash, self.sig, self.hung = False, "", "", [], [], False, [[], []], False
        self.back = None
        self.sched = [0, 0, 0, 0, 0]    # workers alive at return, signals raised, workers, accesses, switches

    @property
    def ek(self):
        if self.crash:
            return "hang" if self.hung else "crash"
        if self.ok:
            return "none"
        # the error itself first, then what was printed before it (warnings apart)
        for t in (self.msg, "\n".join(x for x in self.out.split("\n") if "Warning" not in x)):
            if "out-of-bounds" in t:
                return "oob"
            if "CTRL-C" in t or "KeyboardInterrupt" in t or "interrupt" in t.lower():
                return "intr"
        return "reject"


_seq = [0]


def run_calls(calls, mt=False, stall=60.0, envbase=None):
    """Run a list of calls of ONE api in one process (restarted after a crash or hang); returns Results."""
    res = [None] * len(calls)
    todo = list(range(len(calls)))
    restarts = 0
    while todo:
        if _hangs[0] >= 8:      # enough: what is left is recorded as hanging, and confirmed by itself if it matters
            r = Result()
            r.crash = r.hung = True
            r.msg = "hang"
            for j in todo:
                res[j] = r
            break
        _seq[0] += 1
        d = os.path.join(BUILD, "run", "%d-%d" % (os.getpid(), _seq[0]))
        os.makedirs(d, exist_ok=True)
        fin, fout, fso, fse = (os.path.join(d, n) for n in ("in", "out", "stdout", "stderr"))
        with open(fin, "w") as f:
            for i in todo:
                f.write(calls[i].text(str(i)))
        open(fso, "w").close()
        e = clean_env()
        e["OPENBLAS_NUM_THREADS"] = "1"
        e["OMP_NUM_THREADS"] = "1"
        e.pop("DREAM_NUM_THREADS", None)
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["HOME"] = d
        dream = DREAM
        if mt:
            dream = DREAM_MT
            e["LD_PRELOAD"] = build_shim()
            e["DREAM_SCHED_DIR"] = DREAM_MT
        if envbase:
            e.update(envbase)
        api = calls[todo[0]].api
        if api.endswith("cl"):
            api = api[:-2]
            dream = DREAM_CL
            e["LD_PRELOAD"] = build_clshim()
            e["DREAM_CL_KERNELS"] = os.path.join(REPO, "opencl")
            e["POCL_CACHE_DIR"] = os.path.join(BUILD, "pocl")
            e["POCL_MAX_PTHREAD_COUNT"] = "2"
            os.makedirs(e["POCL_CACHE_DIR"], exist_ok=True)
        if api == "mex":
            dream = None
        if api in ("oct", "mex"):
            cmd = ["octave-cli", "--norc", "--no-history", "--no-gui", "--path", HARN + ":" + BUILD + ":" + (os.path.join(dream, "oct") if dream else DREAM_MEX) + ":" + os.path.join(REPO, "m_files"), "--eval",
                   "oct_driver('%s','%s','%s')" % (fin, fout, fso)]
        else:
            e["PYTHONPATH"] = DREAM_JL if api == "jl" else os.path.join(dream, "python")
            cmd = ["/usr/local/bin/python3", os.path.join(HARN, "py_driver.py"), fin, fout, fso]
        with open(fso, "a") as so, open(fse, "w") as se:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=so, stderr=se, env=e, cwd=d, start_new_session=True)
            last, lastt, hung = -1, time.time(), False
            while p.poll() is None:
                time.sleep(0.02)
                sz = os.path.getsize(fout) if os.path.exists(fout) else 0
                if sz != last:
                    last, lastt = sz, time.time()
                elif time.time() - lastt > stall:
                    hung = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
        so_bytes = open(fso, "rb").read()
        if "cannot be preloaded" in open(fse, errors="replace").read():
            raise CheckError("the shim was not loaded: " + open(fse, errors="replace").read()[-500:])
        begun, done = parse_out(fout, so_bytes, res)
        left = [i for i in todo if i not in done]
        if left:
            i = begun if begun is not None and begun not in done else left[0]
            if begun is None and restarts == 0 and not done:
                err = open(fse).read()[-2000:]
                # nothing at all was run: a problem of the harness, or the library cannot even be loaded
                if begun is None:
                    raise CheckError("driver did not start: rc=%s %s" % (p.returncode, err))
            r = Result()
            r.crash = True
            r.hung = hung
            _hangs[0] += hung
            r.msg = "hang" if hung else "process ended: rc=%s" % p.returncode
            res[i] = r
            left.remove(i)
            restarts += 9 if hung else 1
            if restarts > 25:
                for j in left:
                    res[j] = r
                left = []
        shutil.rmtree(d, ignore_errors=True)
        todo = left
    return res


def parse_out(fout, so_bytes, res):
    begun, done = None, set()
    if not os.path.exists(fout):
        return begun, done
    cur, r = None, None
    with open(fout) as f:
        lines = f.read().split("\n")
    k = 0
    n = len(lines)
    while k < n:
        t = lines[k]
        if t.startswith("BEGIN "):
            begun = int(t[6:])
            r, cur, isback = None, begun, False
        elif t.startswith("RES "):
            x = t.split(" ")
            r = Result()
            r.ok = x[2] == "1"
            r.out = so_bytes[int(x[3]):int(x[4])].decode("utf8", "replace")
        elif t.startswith("MSG ") and r:
            r.msg = t[4:]
        elif t.startswith("SAME") and r:
            r.same = [int(z) for z in t[4:].split()]
        elif t.startswith("SIG ") and r:
            z = t[4:].split()
            r.sig = [z[:len(z) // 2], z[len(z) // 2:]]
        elif t.startswith("SCHED ") and r:
            r.sched = [int(float(z)) for z in t[6:].split()]
        elif t == "BACK" and r:
            isback = True
        elif t.startswith("VAL ") and r:
            _, cls, rr, cc = t.split(" ")
            k += 1
            v = [float(z) for z in lines[k].split()]
            if isback:
                r.back = (cls, int(rr), int(cc), v)
            else:
                r.outs.append((cls, int(rr), int(cc), v))
        elif t.startswith("VSTR ") and r:
            r.outs.append(("char", 1, len(t) - 5, t[5:]))
        elif t.startswith("VOTHER ") and r:
            r.outs.append((t[7:], 0, 0, []))
        elif t == "END" and r:
            res[cur] = r
            done.add(cur)
        k += 1
    return begun, done


_hangs = [0]


def run_sessions(sessions, mt=False, stall=60.0, envbase=None):
    """sessions: list of (list of calls). Sessions of the same api share a process in order, unless the first call says fresh."""
    _hangs[0] = 0
    groups = {}
    order = []
    for si, s in enumerate(sessions):
        api = s[0].api
        key = (api, si) if s[0].fresh else (api, None)
        if key not in groups:
            groups[key] = []
            order.append(key)
        groups[key] += [(si, ci, c) for ci, c in enumerate(s)]
    out = [[None] * len(s) for s in sessions]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=4) as ex:
        futs = [(key, ex.submit(run_calls, [c for _, _, c in groups[key]], mt, stall, envbase)) for key in order]
        for key, f in futs:
            for (si, ci, _), r in zip(groups[key], f.result()):
                out[si][ci] = r
    return out


def record(c, r):
    def val(o):
        if o[0] == "char":
            return {"cls": "char", "r": 1, "c": 0, "v": [], "s": ""}
        return {"cls": o[0], "r": o[1], "c": o[2], "v": [jnum(x) for x in o[3]], "s": ""}
    ok, ek = r.ok, r.ek
    if ok and c.nout == 0 and c.fn[0] != "@" and r.out.strip() and "Warning" not in r.out:
        # a function without outputs reports a rejection by a message
        ok, ek = False, "intr" if "CTRL-C" in r.out else "reject"
    elif ok and c.nout >= 1 and "CTRL-C" in r.out and all(o[1] * o[2] == 0 for o in r.outs):
        # interrupted: reported by a message, and no result
        ok, ek = False, "intr"
    cl = c.api.endswith("cl")
    d = {"fn": c.fn, "api": c.api[:-2] if cl else c.api, "cl": cl, "nout": c.nout, "args": [a.json() for a in c.args], "ok": ok, "ek": ek,
         "warned": "Warning: SIR out-of-bounds" in r.out or "Warning: DAS out-of-bounds" in r.out, "outs": [val(o) for o in r.outs],
         "same": all(x == 1 for i, x in enumerate(r.same) if not (ok and i + 1 == c.back)), "hand0": r.sig[0], "hand1": r.sig[1], "into": c.into, "stored": c.store,
         "nt": c.env.get("DREAM_NUM_THREADS", ""), "alive": r.sched[0], "sigs": r.sched[1]}
    if r.back is not None:
        d["back"] = val(r.back)
    d.update({k: v for k, v in c.meta.items() if not k.startswith("_")})
    return d


# ---------------------------------------------------------------- TLC

def tlc(module, cfg=None, env=None, workers=8, extra=(), timeout=800, cwd=SPEC, heap="6g"):
    cls = build_java()
    meta = os.path.join(BUILD, "tlc", "%d-%d" % (os.getpid(), time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", cls + ":" + JAR + ":" + CMJAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
    cmd += ["-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, st


_verdict = re.compile(r'^"?VERDICT\|(\d+)\|(\d+)\|(\w+)\|(.*?)"?$')


def judge(sessions, results, workers=8, timeout=420, module="SessionTrace"):
    """Validate recorded sessions with TLC. Returns (rejections, ambiguous, (transitions, states));
    a rejection is (session, call, facet, message)."""
    _seq[0] += 1
    os.makedirs(os.path.join(BUILD, "trace"), exist_ok=True)
    path = os.path.join(BUILD, "trace", "%d-%d.ndjson" % (os.getpid(), _seq[0]))
    with open(path, "w") as f:
        for s, rs in zip(sessions, results):
            f.write(json.dumps({"ev": [record(c, r) for c, r in zip(s, rs)]}) + "\n")
    rc, out, st = tlc(module, env={"TRACE": path}, workers=workers, timeout=timeout)
    rej, amb = [], []
    for ln in out.split("\n"):
        m = _verdict.match(ln)
        if m:
            x = (int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(3), m.group(4))
            (amb if x[2] == "amb" else rej).append(x)
        elif "VERDICT" in ln and rc == 0:
            raise CheckError("unreadable verdict: " + ln[:300])
    if rc != 0:
        keep = os.path.join(BUILD, "tlc-fail.txt")
        open(keep, "w").write(out)
        i = out.find("Error")
        if rej:         # these were decided before, and stand
            print("# TLC trace validation ended abnormally (rc=%s)" % rc)
            return sorted(rej), amb, st
        raise CheckError("TLC trace validation ended abnormally (rc=%s), see %s:\n%s" % (rc, keep, out[max(0, i - 200):i + 2500]))
    want = sum(len(s) + 1 for s in sessions)
    if st[1] != want:
        raise CheckError("TLC consumed %d trace states, not %d" % (st[1], want))
    os.unlink(path)
    return sorted(rej), amb, st
