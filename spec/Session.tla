------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session: a sequence of calls in one Octave or Python process.         *)
(* State: env, the named variables holding matrices that the in-place      *)
(* functions modify (the only thing any DREAM call may change).            *)
(***************************************************************************)
EXTENDS Judge

VARIABLE env
NoVars == [x \in {} |-> 0]

IsRef(a) == a.t = "REF"
Deref(a, e) == IF IsRef(a) THEN e[a.s] ELSE a
Resolved(rec, e) == [rec EXCEPT !.args = TLCEval([i \in 1..Len(rec.args) |-> Deref(rec.args[i], e)])]

(* the matrix an in-place call works on *)
Target(rec) == IF "into" \in DOMAIN rec THEN rec.into ELSE ""

MatEq(a, b) == /\ a.r = b.r /\ a.c = b.c /\ a.v = b.v

(* the contents of the session's variables after the call, as recorded *)
Put(e, name, val) == [x \in DOMAIN e \cup {name} |-> IF x = name THEN val ELSE e[x]]
Recorded(o) == [t |-> "D", r |-> o.r, c |-> o.c, v |-> o.v]
After(rec, e) ==
  CASE rec.fn = "@set" -> Put(e, rec.args[1].s, rec.args[2])
    [] "stored" \in DOMAIN rec /\ rec.stored # "" /\ rec.ok -> Put(e, rec.stored, [t |-> "W", s |-> ""])
    [] Target(rec) # "" /\ "back" \in DOMAIN rec -> Put(e, Target(rec), Recorded(rec.back))
    [] OTHER -> e

(* functions that go through FFTW: equal only up to rounding (measured plans) *)
Bitwise(rec) == rec.fn \notin {"fftconv_p", "fftconv_ola", "sum_fftconv", "dream_att"}
                /\ ~ (rec.fn \in SirFns /\ Lossy(rec))
SameCall(a, b) == a.fn = b.fn /\ a.api = b.api /\ a.args = b.args /\ a.nout = b.nout
HasRef(rec) == \E i \in 1..Len(rec.args) : IsRef(rec.args[i])
SameOuts(a, b) == a.ok = b.ok /\ a.ek = b.ek /\ Len(a.outs) = Len(b.outs)
                  /\ \A i \in 1..Len(a.outs) : a.outs[i] = b.outs[i]
Repeats(ev, i) ==
  LET rec == ev[i] IN
  IF rec.ek \in {"crash", "hang", "intr"} \/ HasRef(rec) \/ ~ Bitwise(rec) THEN {}
  ELSE IF \E k \in 1..(i-1) : ev[k].ek \notin {"crash", "hang", "intr"} /\ SameCall(ev[k], rec) /\ ~ SameOuts(ev[k], rec)
       THEN {<<"repeat", "differs from an equal earlier call">>} ELSE {}

(* a variable that an earlier, rejected call should have made *)
Dangling(rec, e) == \E i \in 1..Len(rec.args) : (IsRef(rec.args[i]) \/ rec.fn = "@get") /\ rec.args[i].s \notin DOMAIN e
(* an earlier event of the session crashed: what follows ran in a new process *)
Step(ev, i, e) ==
  LET rec == ev[i] IN
  CASE rec.fn = "@set" -> {}
    [] Dangling(rec, e) -> {}
    [] rec.fn = "@get" -> IF rec.ok /\ MatEq(rec.outs[1], e[rec.args[1].s]) THEN {}
                          ELSE {<<"env", "variable " \o rec.args[1].s \o " changed although no call was given it as output">>}
    [] OTHER -> Judge(Resolved(rec, e), e) \cup Repeats(ev, i)
=============================================================================
