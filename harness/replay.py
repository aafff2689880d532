"""replay.py FILE [--last]: run a recorded violation's calls again and judge them (--last: only the violating session)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


def main():
    d = json.load(open(sys.argv[1]))
    ss = [[Call.load(c) for c in s] for s in d["sessions"]]
    if "--last" in sys.argv:
        ss = ss[-1:]
    import scenarios as sc
    x = d.get("extra") or {}
    build(sc.TARGETS[d["property"]], mt=bool(x.get("mt")), cl=d["property"] in ("G01", "G02"))
    rr = run_sessions(ss, mt=bool(x.get("mt")))
    rej, amb, _ = judge(ss, rr)
    for s, l, f, m in rej:
        c, r = ss[s][l], rr[s][l]
        print("session %d call %d %s:%s env=%s %s: %s [%s]" % (s, l, c.api, c.fn, c.env, f, m, r.msg))
        for a in c.args:
            print("   ", a.kind, a.r, a.c, a.l, a.v[:12], a.s)
        for o in r.outs:
            print("   ->", o[0], o[1], o[2], o[3][:12])
    print("%d rejections" % len(rej))
    return 1 if rej else 0


if __name__ == "__main__":
    sys.exit(main())
