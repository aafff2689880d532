"""Builds the MATLAB (MEX) gateways, for Octave's MEX interface, and the Julia gateways, on a stand-in for CxxWrap, from /repo's
own source lists.  A gateway that does not compile is left out (and reported): it computes nothing that could be judged."""
import os, re, subprocess, threading
from vlib import *


def lists(kind):
    """output name -> (sources, definitions) from the gateway's CMakeLists.txt"""
    d = os.path.join(REPO, "mex" if kind == "mex" else "julia")
    t = re.sub(r"#[^\n]*", "", open(os.path.join(d, "CMakeLists.txt")).read())
    pre = "mex" if kind == "mex" else "jl"
    out = {}
    for m in re.finditer(r"set\s*\(%s_(\w+)_SOURCE_FILES\s+([^)$]*)\)" % pre, t):
        defs = []
        f = re.search(r"set_target_properties\s*\(\s*%s_%s\s+([^)]*)\)" % (pre, m.group(1)), t)
        if f:
            defs = re.findall(r"-D\w+", f.group(1))
        f = re.search(r"target_compile_definitions\s*\(\s*%s_%s\s+([^)]*)\)" % (pre, m.group(1)), t)
        if f:
            defs += ["-D" + x for x in f.group(1).split() if x not in ("PUBLIC", "PRIVATE")]
        out[m.group(1)] = ([os.path.normpath(os.path.join(d, s)) for s in m.group(2).replace('"', " ").split()], sorted(set(defs)))
    return out


def cmdout(*c):
    return subprocess.run(c, env=clean_env(), stdout=subprocess.PIPE, text=True).stdout.strip()


def build_gateways(kind):
    """-> names of the gateways that were built, names of those that do not compile"""
    dst = DREAM_MEX if kind == "mex" else DREAM_JL
    fresh_tree(dst)
    os.makedirs(dst, exist_ok=True)
    sg = threading.Thread(target=build_sigstate)
    sg.start()
    if kind == "mex":
        base = "-std=c++17 -DDREAM_MATLAB -DHAVE_FFTW -I%s/include %s" % (REPO, cmdout("mkoctfile", "-p", "INCFLAGS"))
        link, ext = "-lfftw3 -lfftw3f", ".mex"
    else:
        py = "/usr/local/bin/python3"
        inc = cmdout(py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])")
        pb = pybind_include()
        base = "-std=c++17 -DDREAM_JULIA -DHAVE_FFTW -I%s/jlmock -I%s/include -I%s/julia/include -I%s -I%s" % (HARN, REPO, REPO, inc, pb)
        link, ext = "-lfftw3 -lfftw3f", cmdout(py, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))")
    rules = ["rule cc", " command = g++ -O1 -fPIC -w -pthread -MMD -MF $out.d $flags -c $in -o $out", " depfile = $out.d", " deps = gcc",
             "rule ld", " command = g++ -shared -pthread -o $out $in " + link, ""]
    seen, names = set(), lists(kind)
    for n, (src, defs) in sorted(names.items()):
        objs = []
        for s in src + ([os.path.join(HARN, "jlmock", "jlmain.cc")] if kind == "jl" else []):
            main = s.endswith("jlmain.cc")
            # only dream_error.cc and the like are the same in every gateway
            o = "%s-%s.o" % (re.sub(r"\W", "_", os.path.relpath(s, REPO)), n if main else "_".join(x[2:] for x in defs))
            objs.append(o)
            if o not in seen:
                seen.add(o)
                rules += ["build %s: cc %s" % (o, s), " flags = %s %s%s" % (base, " ".join(defs), " -DJLNAME=" + n if main else "")]
        rules.append("build %s: ld %s" % (n + ext, " ".join(objs)))
    text = "\n".join(rules) + "\n"
    f = os.path.join(dst, "build.ninja")
    if not os.path.exists(f) or open(f).read() != text:
        open(f, "w").write(text)
    t0 = time.time()
    r = subprocess.run(["ninja", "-k", "0", "-C", dst], env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sg.join()
    bad = []
    if r.returncode != 0:
        d = subprocess.run(["ninja", "-C", dst, "-n", "-k", "0"], env=clean_env(), stdout=subprocess.PIPE, text=True).stdout
        bad = [n for n in sorted(names) if re.search(r"\b%s%s\b" % (n, re.escape(ext)), d)]
        log("gateways that do not compile: %s\n%s" % (" ".join(bad), r.stdout[-1500:]))
    log("built %d %s gateways in %.1fs" % (len(names) - len(bad), kind, time.time() - t0))
    return [n for n in sorted(names) if n not in bad], bad


def pybind_include():
    for py in ("/usr/local/bin/python3",):
        p = cmdout(py, "-m", "pybind11", "--includes")
        m = re.findall(r"-I(\S+)", p)
        if m:
            return m[-1]
    for p in ("/usr/include", "/usr/local/include"):
        if os.path.exists(os.path.join(p, "pybind11")):
            return p
    raise CheckError("pybind11 not found")
