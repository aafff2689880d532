------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Judge(rec, env): in which respects does a recorded call disagree with   *)
(* the specification?  A set of <<facet, message>>; {} when it agrees.     *)
(*   resp    a response / image / convolution value                        *)
(*   size    shape or class of the result                                  *)
(*   oob     raising of the out-of-bounds error                            *)
(*   code    returned error code      warn    out-of-bounds warning        *)
(*   fail    a valid call was rejected                                     *)
(*   accept  a malformed call was accepted                                 *)
(*   crash   the process ended        hang    it did not return            *)
(*   inputs  an argument was modified sig     signal handlers were changed *)
(*   back    content of the in-place output                                *)
(*   amb     (no disagreement) the call hangs on the last bits of a double *)
(*           - a nearest-sample tie, a grid point on the aperture's edge - *)
(*           and was not, or only partly, judged                           *)
(*                                                                         *)
(* A record: fn, api, args, nout, ok (returned normally), ek (kind of      *)
(* error: "none", "oob", "intr", "reject", "crash", "hang"), warned        *)
(* (printed the out-of-bounds warning), outs (sequence of [cls, r, c, v]), *)
(* back (content of the in-place argument after the call), same, hand0 and  *)
(* hand1 (the session's signal handlers before and after the call).        *)
(***************************************************************************)
EXTENDS Api, Das, Conv, Analytic, SubMat, Helpers, Valid

RelTol == RQ(1, 1000000000)

(***************************************************************************)
(* What a valid call has to produce:                                       *)
(*   r, c     size of the result                                           *)
(*   blocks   its elements in column-major order, in blocks of equal       *)
(*            length [h, oob, amb] plus optionally c (c[i] = 0: sample i   *)
(*            must be exactly zero) and m (scale of rounding errors)       *)
(*   lvl      error level, tol, inplace                                    *)
(***************************************************************************)
Expect(rec, env) ==
  LET fn == rec.fn  A == rec.args IN
  CASE fn \in SirFns -> LET C == SirCall(fn, A) IN
         [r |-> C.nt, c |-> Len(C.cols), blocks |-> C.cols, lvl |-> C.lvl, tol |-> RelTol, inplace |-> FALSE]
    [] fn \in AuxFns -> AuxCall(fn, A)
    [] fn \in AnalyticFns -> AnalyticCall(fn, A)
    [] fn \in DasFns -> DasCall(rec)
    [] fn \in UniFns -> DasUniCall(rec)
    [] fn \in ConvFns -> ConvCall(fn, A)
    [] fn \in SubFns -> SubCall(fn, A)
    [] fn \in HelperFns -> HelperCall(fn, A)

BlockOk(x, b, tol) ==
  LET scale == IF "m" \in DOMAIN b THEN RMax(b.m, RMaxAbs(b.h)) ELSE RMaxAbs(b.h)
  IN /\ \A i \in 1..Len(b.h) : RClose(b.h[i], x[i], scale, tol)
     /\ "c" \in DOMAIN b => \A i \in 1..Len(b.h) : REq(b.c[i], Zero) => REq(x[i], Zero)

BadBlocks(o, E, blocks) ==
  LET L == Len(blocks[1].h)
      sub(n) == SubSeq(o.v, (n-1) * L + 1, n * L)
  IN {n \in 1..Len(blocks) : ~ blocks[n].amb /\ ~ BlockOk(sub(n), blocks[n], E.tol)}

LevelCode(lvl) == CASE lvl = "ignore" -> 1 [] lvl = "warn" -> 2 [] OTHER -> 3
HasCode(fn) == fn \in SirFns \cup DasFns \cup AuxFns \cup AnalyticFns

If(c, f, m) == IF c THEN {<<f, m>>} ELSE {}

JudgeValue(rec, env) ==
  LET E == Expect(rec, env)
      n == Len(E.blocks)
      B == TLCEval([k \in 1..n |-> E.blocks[k]])
      amb == \E k \in 1..n : B[k].amb
      oob == \E k \in 1..n : B[k].oob
      h == IF ~ E.inplace THEN rec.outs[1] ELSE IF "back" \in DOMAIN rec THEN rec.back ELSE [r |-> 0, c |-> 0, v |-> << >>]
      gpu == Gpu(rec)
      stops == oob /\ E.lvl = "stop" /\ ~ gpu
      bad == IF n = 0 THEN {} ELSE TLCEval(BadBlocks(h, E, B))
  IN If(amb, "amb", "") \cup
     (IF rec.ek = "oob" THEN If(~ stops /\ ~ amb, "oob", "out-of-bounds error although nothing is outside or the level is not stop")
      ELSE IF ~ rec.ok THEN {<<"fail", "valid call failed: " \o rec.ek>>}
      ELSE IF stops THEN If(~ amb, "oob", "out-of-bounds arrival at level stop raised no error")
      ELSE IF E.inplace /\ "back" \notin DOMAIN rec THEN {<<"back", "the in-place output was not returned">>}
      ELSE IF ~ E.inplace /\ Len(rec.outs) = 0 THEN {<<"size", "no result">>}
      ELSE IF h.r # E.r \/ h.c # E.c THEN {<<"size", "result is " \o ToString(h.r) \o " x " \o ToString(h.c) \o ", not "
                                                  \o ToString(E.r) \o " x " \o ToString(E.c)>>}
      ELSE If(bad # {}, IF E.inplace THEN "back" ELSE "resp", "wrong values in blocks " \o ToString(bad))
           \cup (IF HasCode(rec.fn) /\ Len(rec.outs) > 1 /\ ~ amb /\ ~ gpu
                 THEN If(~ REq(rec.outs[2].v[1], IF oob THEN LevelCode(E.lvl) ELSE 0), "code",
                         "wrong error code " \o ToString(rec.outs[2].v[1]) \o ", out-of-bounds = " \o ToString(oob)) ELSE {})
           \cup (IF rec.fn \in SirFns /\ ~ amb /\ ~ gpu
                 THEN If(oob /\ E.lvl = "warn" /\ ~ rec.warned, "warn", "no out-of-bounds warning")
                      \cup If(~ (oob /\ E.lvl = "warn") /\ rec.warned, "warn", "spurious out-of-bounds warning") ELSE {}))

Judge(rec, env) ==
  CASE rec.ek = "crash" -> {<<"crash", "the process ended during the call">>}
    [] rec.ek = "hang"  -> {<<"hang", "the call did not return">>}
    [] OTHER ->
       If(~ rec.same, "inputs", "an input argument was modified")
       \cup If(rec.alive # 0, "alive", "the call returned while " \o ToString(rec.alive) \o " of its workers were running")
       \cup If(rec.hand0 # rec.hand1, "sig", "the call changed the session's signal handlers")
       \cup (CASE Malformed(rec) -> If(rec.ok, "accept", "malformed call was accepted")
                                    \cup If(rec.ok /\ Len(rec.outs) > 0, "accept", "malformed call returned a result")
               [] rec.ek = "intr" -> If(rec.sigs = 0, "intr", "interrupted although no signal arrived")
               [] OTHER -> JudgeValue(rec, env))
=============================================================================
