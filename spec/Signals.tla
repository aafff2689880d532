------------------------------ MODULE Signals ------------------------------
(***************************************************************************)
(* A session's signal dispositions and the calls it makes.  A call that    *)
(* gets as far as computing saves the dispositions of the signals it       *)
(* handles and installs its own handler, which clears the go flag; on      *)
(* every way out - result, error, interruption - it puts back what it      *)
(* saved.  A rejected call never installs.  The session changes its        *)
(* dispositions only between calls.  A signal runs the handler that is     *)
(* installed when it arrives.                                              *)
(*                                                                         *)
(* The histories (words) are made concrete and replayed on the real        *)
(* functions; the dispositions are read before and after every call.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Words

Sigs == {"INT", "TERM", "ABRT"}
Chosen == {"default", "own1", "own2"}
Kinds == {"ok", "bad", "stop", "intr"}

VARIABLES
  want,     \* what the session has chosen, per signal
  disp,     \* what is installed
  saved,    \* what the running call has put aside
  phase,    \* "idle", "entered", "computing", "leaving"
  kind,     \* of the running call
  fn,       \* the signals the called function handles
  flag,     \* its go flag
  result,   \* how the last call ended
  lost,     \* a signal ran a handler of a call that was over, or of none
  word
vars == <<want, disp, saved, phase, kind, fn, flag, result, lost, word>>

Init == /\ want = [s \in Sigs |-> "default"] /\ disp = want
        /\ saved = want /\ phase = "idle" /\ kind = "ok" /\ fn = {} /\ flag = TRUE /\ result = "none" /\ lost = FALSE /\ word = << >>

Choose == /\ phase = "idle" /\ Len(word) < N
          /\ (IF word = << >> THEN TRUE ELSE word[Len(word)] # "set")
          /\ \E h \in [Sigs -> Chosen] : h # want /\ (Words => \A s, t \in Sigs : h[s] = h[t]) /\ want' = h /\ disp' = h
          /\ word' = Append(word, "set") /\ UNCHANGED <<saved, phase, kind, fn, flag, result, lost>>
Enter(k, f) == /\ phase = "idle" /\ Len(word) < N
               /\ phase' = "entered" /\ kind' = k /\ fn' = f /\ flag' = TRUE
               /\ word' = Append(word, k)
               /\ UNCHANGED <<want, disp, saved, result, lost>>
Reject == /\ phase = "entered" /\ kind = "bad" /\ phase' = "idle" /\ result' = "rejected" /\ kind' = "ok"
          /\ UNCHANGED <<want, disp, saved, fn, flag, lost, word>>
Install == /\ phase = "entered" /\ kind # "bad"
           /\ saved' = disp
           /\ disp' = [s \in Sigs |-> IF s \in fn THEN "call" ELSE disp[s]]
           /\ phase' = "computing" /\ UNCHANGED <<want, kind, fn, flag, result, lost, word>>
(* a signal while the call computes; in the words only interrupted calls are sent one *)
Deliver(s) == /\ phase = "computing" /\ kind = "intr" /\ flag
              /\ flag' = (disp[s] # "call")
              /\ lost' = (lost \/ (disp[s] = "call" /\ s \notin fn))
              /\ UNCHANGED <<want, disp, saved, phase, kind, fn, result, word>>
Compute == /\ phase = "computing"
           /\ result' = IF ~ flag THEN "interrupted" ELSE IF kind = "stop" THEN "error" ELSE "result"
           /\ phase' = "leaving" /\ UNCHANGED <<want, disp, saved, kind, fn, flag, lost, word>>
Leave == /\ phase = "leaving"
         /\ disp' = [s \in Sigs |-> IF s \in fn THEN saved[s] ELSE disp[s]]
         /\ phase' = "idle" /\ kind' = "ok" /\ UNCHANGED <<want, saved, fn, flag, result, lost, word>>
Finish == /\ Words /\ phase = "idle" /\ Len(word) = N /\ PrintT("WORD|" \o ToString(word)) /\ FALSE
          /\ UNCHANGED vars
Next == Choose \/ (\E k \in Kinds, f \in (IF Words THEN {{"INT"}} ELSE {{"INT"}, {"INT", "ABRT"}, Sigs}) : Enter(k, f))
        \/ Reject \/ Install \/ (\E s \in Sigs : Deliver(s)) \/ Compute \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars

(* T03 *)
Kept == phase = "idle" => disp = want
Foreign == \A s \in Sigs : phase # "idle" /\ s \notin fn => disp[s] = want[s]
Ours == ~ lost
(* T02: what is interrupted is not a result *)
Whole == (phase \in {"leaving", "idle"} /\ result = "result" /\ phase = "leaving") => flag
Inv == Kept /\ Foreign /\ Ours /\ Whole
=============================================================================
