------------------------------- MODULE SubMat -------------------------------
(***************************************************************************)
(* copy_p(A, rows, cols, B), add_p(A, rows, cols, B): in place on A.       *)
(***************************************************************************)
EXTENDS Api

SubFns == {"copy_p", "add_p"}

SubCall(fn, A) ==
  LET D == A[1]  B == A[4]
      r0 == RTrunc(A[2].v[1])  r1 == RTrunc(A[2].v[2])
      c0 == RTrunc(A[3].v[1])  c1 == RTrunc(A[3].v[2])
      elem(i, j) ==
        LET old == D.v[(j-1) * D.r + i] IN
        IF i \in r0..r1 /\ j \in c0..c1
        THEN LET b == B.v[(j - c0) * B.r + (i - r0) + 1] IN IF fn = "copy_p" THEN b ELSE RAdd(old, b)
        ELSE old
  IN [r |-> D.r, c |-> D.c,
      blocks |-> [j \in 1..D.c |-> [h |-> TLCEval([i \in 1..D.r |-> elem(i, j)]), oob |-> FALSE, amb |-> FALSE]],
      lvl |-> "none", tol |-> Zero, inplace |-> TRUE]
=============================================================================
