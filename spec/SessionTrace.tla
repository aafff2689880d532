---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validation of recorded sessions.  A session is a behaviour of Session:  *)
(* each recorded event is one Call step; the state is what a session       *)
(* remembers - the named variables that in-place functions work on.        *)
(* Nothing else is remembered, so that a result which depends on anything  *)
(* but the arguments (an earlier call, wisdom, the number of workers, a    *)
(* schedule) is a rejected trace.  A disagreeing step is reported and the  *)
(* rest of the session is still checked, from the recorded contents.       *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
tvars == <<s, l, env>>

Init == /\ s \in 1..Len(Trace)
        /\ l = 1
        /\ env = NoVars
(* one string each: TLC breaks long tuples over several lines *)
Note(v) == \A x \in v : PrintT("VERDICT|" \o ToString(s) \o "|" \o ToString(l) \o "|" \o x[1] \o "|" \o x[2])
Next == /\ l <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev IN
             /\ Note(TLCEval(Step(ev, l, env)))
             /\ env' = After(ev[l], env)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_tvars
=============================================================================
