-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The worker pool every threaded DREAM function uses.  N points (columns, *)
(* for the convolutions) are split into W contiguous ranges; each worker   *)
(* computes its points in order and looks at a shared go flag between two  *)
(* points; a point with an out-of-range sample at level stop, and a signal *)
(* handled by the function, clear the flag; the caller joins all workers,  *)
(* merges their errors and reports.  The same process then makes another   *)
(* call.                                                                   *)
(*                                                                         *)
(* TLC explores every interleaving and checks the invariants below.  With  *)
(* Words = TRUE the complete schedules of the first call are printed; they *)
(* are forced on the real functions by harness/sched.c.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, W, MaxSig, MaxOob, Words

Points == 0..(N-1)
Workers == 0..(W-1)
First(w) == (w * N) \div W
Last(w)  == ((w + 1) * N) \div W          \* one past the last point

ASSUME Partition ==
  /\ W >= 1 /\ W <= N
  /\ \A p \in Points : Cardinality({w \in Workers : First(w) <= p /\ p < Last(w)}) = 1
  /\ \A w \in Workers : First(w) < Last(w)

VARIABLES
  call,     \* 1 or 2
  oob,      \* points of this call that are out of range (level stop)
  flag,     \* the go flag
  handled,  \* the function has registered its handler
  pos,      \* next point of each worker
  st,       \* "run" or "ended"
  fresh,    \* the worker has not computed anything yet (no check before the first point)
  err,      \* worker met an out-of-range point
  done,     \* how often each point was computed
  spawned,  \* workers the caller has started
  joined,   \* workers the caller has joined
  ret,      \* what the call reported: "none" while it runs
  sigs, word
vars == <<call, oob, flag, handled, pos, st, fresh, err, done, spawned, joined, ret, sigs, word>>

Fresh == /\ pos = [w \in Workers |-> First(w)]
         /\ st = [w \in Workers |-> "run"]
         /\ fresh = [w \in Workers |-> TRUE]
         /\ err = [w \in Workers |-> FALSE]
         /\ done = [p \in Points |-> 0]
         /\ spawned = 0 /\ joined = 0 /\ ret = "none" /\ flag = TRUE /\ handled = TRUE
Init == /\ call = 1 /\ sigs = 0 /\ word = << >>
        /\ oob \in {s \in SUBSET Points : Cardinality(s) <= MaxOob}
        /\ Fresh

Log(x) == word' = IF Words /\ call = 1 THEN Append(word, x) ELSE word

(* the caller starts the workers one by one: the first may be done before the last exists *)
Spawn == /\ ret = "none" /\ spawned < W
         /\ spawned' = spawned + 1
         /\ Log("C")
         /\ UNCHANGED <<call, oob, flag, handled, pos, st, fresh, err, done, joined, ret, sigs>>

(* one step of a worker: look at the flag (not before its first point), then compute the next point *)
Step(w) ==
  /\ ret = "none" /\ w < spawned /\ st[w] = "run"
  /\ LET p == pos[w]
         stop == (~ fresh[w] /\ ~ flag) \/ p = Last(w) IN
     IF stop THEN /\ st' = [st EXCEPT ![w] = "ended"]
                  /\ UNCHANGED <<pos, fresh, err, done, flag>>
     ELSE /\ done' = [done EXCEPT ![p] = @ + 1]
          /\ pos' = [pos EXCEPT ![w] = p + 1]
          /\ fresh' = [fresh EXCEPT ![w] = FALSE]
          /\ err' = [err EXCEPT ![w] = @ \/ p \in oob]
          /\ flag' = (flag /\ p \notin oob)
          /\ st' = st
  /\ Log(w)
  /\ UNCHANGED <<call, oob, handled, spawned, joined, ret, sigs>>

(* a signal: only while the function handles it *)
Signal == /\ sigs < MaxSig /\ handled /\ ret = "none"
          /\ flag' = FALSE /\ sigs' = sigs + 1
          /\ Log("S")
          /\ UNCHANGED <<call, oob, handled, pos, st, fresh, err, done, spawned, joined, ret>>

Join == /\ ret = "none" /\ spawned = W /\ joined < W /\ st[joined] = "ended"
        /\ joined' = joined + 1
        /\ UNCHANGED <<call, oob, flag, handled, pos, st, fresh, err, done, spawned, ret, sigs, word>>

Report == /\ ret = "none" /\ joined = W
          /\ ret' = IF \E w \in Workers : err[w] THEN "oob" ELSE IF ~ flag THEN "interrupt" ELSE "complete"
          /\ handled' = FALSE
          /\ (Words /\ call = 1 => PrintT("WORD|" \o ToString(word)))
          /\ UNCHANGED <<call, oob, flag, pos, st, fresh, err, done, spawned, joined, sigs, word>>

(* the next call of the session starts by raising the flag *)
NextCall == /\ ret # "none" /\ call = 1 /\ ~ Words
            /\ call' = 2 /\ oob' = {} /\ sigs' = MaxSig /\ word' = word
            /\ pos' = [w \in Workers |-> First(w)] /\ st' = [w \in Workers |-> "run"]
            /\ fresh' = [w \in Workers |-> TRUE] /\ err' = [w \in Workers |-> FALSE]
            /\ done' = [p \in Points |-> 0] /\ spawned' = 0 /\ joined' = 0 /\ ret' = "none" /\ flag' = TRUE /\ handled' = TRUE

Next == Spawn \/ (\E w \in Workers : Step(w)) \/ Signal \/ Join \/ Report \/ NextCall
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A w \in Workers : WF_vars(Step(w)) /\ WF_vars(Spawn) /\ WF_vars(Join) /\ WF_vars(Report) /\ WF_vars(NextCall)

(* each point at most once, by its own worker *)
Once == \A p \in Points : done[p] <= 1
(* T01/T02: a reported result is the whole result, no worker is left, nothing out of range was passed over *)
Whole == ret = "complete" => (\A p \in Points : done[p] = 1) /\ oob = {}
Gone == ret # "none" => \A w \in Workers : st[w] = "ended"
(* S06: out of range is reported whichever point and worker met it; nothing is reported without a reason *)
Stopped == /\ ret = "oob" => \E p \in oob : done[p] = 1
           /\ (ret # "none" /\ sigs = 0 /\ oob # {}) => ret = "oob"
           /\ ret = "interrupt" => sigs > 0
(* T02: what an interrupted call leaves behind does not reach the next *)
Clean == (call = 2 /\ ret # "none") => ret = "complete"
(* T03 *)
Restored == ret # "none" => ~ handled
Inv == Once /\ Whole /\ Gone /\ Stopped /\ Clean /\ Restored
Ends == <>(call = 2 /\ ret = "complete")
=============================================================================
