-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Convolution of the columns of A with a vector or the columns of B:      *)
(*   conv_p(A, B [, Y [, mode]])                                           *)
(*   fftconv_p(A, B [, Y [, mode]] [, wisdom])                             *)
(*   fftconv_ola(A, B, block_len [, Y [, mode]] [, wisdom])                *)
(*   sum_fftconv(H, U [, Y] [, wisdom])                                    *)
(***************************************************************************)
EXTENDS Api

ConvFns == {"conv_p", "fftconv_p", "fftconv_p:fftconv_p", "fftconv_ola", "sum_fftconv"}

IsVec(a) == a.r = 1 \/ a.c = 1
Column(a, n) == SubSeq(a.v, (n-1) * a.r + 1, n * a.r)
ColumnOrVec(a, n) == IF IsVec(a) THEN a.v ELSE Column(a, n)

Padded(x, n) == [i \in 1..n |-> Zero] \o x \o [i \in 1..n |-> Zero]
(* full linear convolution *)
LinConv(x, y) ==
  LET M == Len(x)  K == Len(y)
      xx == TLCEval(RVals(Padded(x, K - 1)))
      ry == TLCEval(RVals(Reverse(y)))
  IN TLCEval([i \in 1..(M + K - 1) |-> RDot(SubSeq(xx, i, i + K - 1), ry)])
(* magnitude against which rounding errors are measured *)
AbsSum(x) == RSum([i \in 1..Len(x) |-> RAbs(x[i])])
Mag(x, y) == RMul(AbsSum(x), RMaxAbs(y))

Rest(fn, A) == IF fn = "fftconv_ola" THEN SubSeq(A, 4, Len(A)) ELSE SubSeq(A, 3, Len(A))
Modes == {"=", "+=", "-="}
InPlace(fn, A) == Len(Rest(fn, A)) > 0 /\ Rest(fn, A)[1].t \notin {"S", "W"}
Mode(fn, A) == LET r == Rest(fn, A) IN IF Len(r) >= 2 /\ r[2].t = "S" THEN r[2].s ELSE "="
Apply(mode, old, new) ==
  CASE mode = "="  -> new
    [] mode = "+=" -> TLCEval([i \in 1..Len(new) |-> RAdd(old[i], new[i])])
    [] mode = "-=" -> TLCEval([i \in 1..Len(new) |-> RSub(old[i], new[i])])

AddSeq(x, y) == TLCEval([i \in 1..Len(x) |-> RAdd(x[i], y[i])])
(* plane l of the M x N x L array H, column n *)
PlaneColumn(H, n, k) == LET o == ((k-1) * H.c + (n-1)) * H.r IN SubSeq(H.v, o + 1, o + H.r)
SumColumn(H, U, n) ==
  LET F == R(H.r + U.r - 1)
      s == FoldLeft(LAMBDA acc, k : AddSeq(acc, LinConv(PlaneColumn(H, n, k), Column(U, k))),
                    [i \in 1..(H.r + U.r - 1) |-> Zero], [k \in 1..H.l |-> k])
  IN TLCEval([i \in 1..Len(s) |-> RDiv(s[i], F)])

ConvCall(fn, A) ==
  LET inp == InPlace(fn, A)
      Y == IF inp THEN Rest(fn, A)[1] ELSE A[1]
      mode == Mode(fn, A)
      K == IF fn = "sum_fftconv" THEN A[2].r ELSE IF IsVec(A[2]) THEN A[2].r * A[2].c ELSE A[2].r
      N == A[1].c
      L == A[1].r + K - 1
      new(n) == IF fn = "sum_fftconv" THEN SumColumn(A[1], A[2], n) ELSE LinConv(Column(A[1], n), ColumnOrVec(A[2], n))
      mag(n) == IF fn = "sum_fftconv" THEN RMul(AbsSum(A[1].v), RMaxAbs(A[2].v)) ELSE Mag(Column(A[1], n), ColumnOrVec(A[2], n))
      blk(n) == LET old == IF inp THEN Column(Y, n) ELSE << >> IN
                [h |-> Apply(mode, old, new(n)), m |-> IF inp THEN RMax(RMaxAbs(old), mag(n)) ELSE mag(n), oob |-> FALSE, amb |-> FALSE]
  IN [r |-> L, c |-> N, blocks |-> [n \in 1..N |-> blk(n)], lvl |-> "none", tol |-> RQ(1, 1000000000), inplace |-> inp]
=============================================================================
