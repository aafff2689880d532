-------------------------------- MODULE Das --------------------------------
(***************************************************************************)
(* Delay-and-sum beamforming: das(Y, Gt, Gr, Ro, dt, delay, cp, method     *)
(* [, err_level, device, verbose]).  Method: saft, tfm, rca_coltx (= rca), *)
(* rca_rowtx; saft whenever Gr is empty.                                   *)
(***************************************************************************)
EXTENDS Api

DasFns == {"das", "das:das", "das_f:das"}
UniFns == {"das_uni"}

DasMethod(A) == IF A[3].r = 0 THEN "saft" ELSE IF A[8].s = "rca" THEN "rca_coltx" ELSE A[8].s
Single(rec) == rec.fn = "das_f:das" \/ (rec.fn \in {"das", "das_uni"} /\ rec.args[1].t = "F")

Dist3(p, q) == RSqrt(RAdd(RAdd(Sq(RSub(p[1], q[1])), Sq(RSub(p[2], q[2]))), Sq(RSub(p[3], q[3]))))
(* distance of x to the interval [lo, hi] *)
Outside(x, lo, hi) == IF RLt(x, lo) THEN RSub(lo, x) ELSE IF RLt(hi, x) THEN RSub(x, hi) ELSE Zero
Dist2(a, b) == RSqrt(RAdd(Sq(a), Sq(b)))
(* a column element stretches along y over the rows' positions, a row element along x over the columns' *)
ColDist(g, rows, at) == RSqrt(RAdd(RAdd(Sq(RSub(g[1], at[1])), Sq(Outside(at[2], rows[1][2], rows[Len(rows)][2]))), Sq(RSub(g[3], at[3]))))
RowDist(g, cols, at) == RSqrt(RAdd(RAdd(Sq(RSub(g[2], at[2])), Sq(Outside(at[1], cols[1][1], cols[Len(cols)][1]))), Sq(RSub(g[3], at[3]))))

(***************************************************************************)
(* The trace (column of Y) and the path length, transmit + receive, of     *)
(* every pair that contributes to the image point at; start is what the    *)
(* start delay adds, in microseconds.                                      *)
(***************************************************************************)
Paths(met, T, Rx, at) ==
  LET nT == Len(T)  nR == Len(Rx) IN
  CASE met = "saft" -> LET d == TLCEval([i \in 1..nT |-> Dist3(T[i], at)]) IN TLCEval([i \in 1..nT |-> RMul(Two, d[i])])
    [] met = "tfm"  -> LET d == TLCEval([i \in 1..nT |-> Dist3(T[i], at)])  e == TLCEval([j \in 1..nR |-> Dist3(Rx[j], at)])
                       IN TLCEval([k \in 1..(nT * nR) |-> RAdd(d[((k-1) \div nR) + 1], e[((k-1) % nR) + 1])])
    [] OTHER ->
         LET d == TLCEval([i \in 1..nT |-> ColDist(T[i], Rx, at)])  e == TLCEval([j \in 1..nR |-> RowDist(Rx[j], T, at)])
         IN IF met = "rca_coltx" THEN TLCEval([k \in 1..(nT * nR) |-> RAdd(d[((k-1) \div nR) + 1], e[((k-1) % nR) + 1])])
            ELSE TLCEval([k \in 1..(nT * nR) |-> RAdd(e[((k-1) \div nT) + 1], d[((k-1) % nT) + 1])])

DasPoint(rec, met, T, Rx, at, delay, dt, cp) ==
  LET A == rec.args
      K == A[1].r
      P == Paths(met, T, Rx, at)
      start == IF met = "saft" THEN RMul(Two, delay) ELSE delay
      u == TLCEval([k \in 1..Len(P) |-> RDiv(RAdd(RDiv(RMul(P[k], K1000), cp), start), dt)])
      ix == TLCEval([k \in 1..Len(P) |-> RTrunc(u[k])])
      (* single precision carries about 1e-7 of the terms' magnitude *)
      gap(k) == IF Single(rec) THEN RMul(RQ(3, 1000000), RAdd(One, RDiv(RAdd(RDiv(RMul(P[k], K1000), cp), RAbs(start)), dt))) ELSE GapTol
      in(k) == ix[k] >= 0 /\ ix[k] < K
      used == {k \in 1..Len(P) : in(k)}
      val == TLCEval([k \in 1..Len(P) |-> IF k \in used THEN A[1].v[(k-1) * K + ix[k] + 1] ELSE Zero])
  IN [h |-> <<RSum(val)>>, m |-> RSum([k \in 1..Len(P) |-> RAbs(val[k])]),
      (* the truncation boundaries that matter are integers, and 0 only from below -1 *)
      oob |-> used # 1..Len(P),
      amb |-> \E k \in 1..Len(P) : RLt(RTruncGap(u[k]), gap(k)) /\ ~ (RLt(RAbs(u[k]), RQ(1, 2)) /\ RLt(gap(k), RQ(1, 2)))]

DasCall(rec) ==
  LET A == rec.args
      met == DasMethod(A)
      T == Rows3(A[2])
      Rx == IF A[3].r = 0 THEN << >> ELSE Rows3(A[3])
      Ro == Rows3(A[4])
  IN [r |-> Len(Ro), c |-> 1,
      blocks |-> [n \in 1..Len(Ro) |-> DasPoint(rec, met, T, Rx, Ro[n], DelayOf(A[6], n), Num(A[5]), Num(A[7]))],
      lvl |-> StrOr(A, 9, "stop"), tol |-> IF Single(rec) THEN RQ(1, 100000) ELSE RQ(1, 1000000000), inplace |-> FALSE]

(***************************************************************************)
(* das_uni(Y, gt, gr, Ro, dt, delay, cp, method): the same images for      *)
(* arrays and image points on uniform grids, on an OpenCL device.          *)
(* gt, gr = [min, pitch, max] along x (gr along y for the row-column       *)
(* addressed methods); each row of Ro = [min, step, max] of one axis, the  *)
(* points ordered along y first, then z, then x.  A grid ends at its       *)
(* maximum; rounding does not drop the last point.                         *)
(***************************************************************************)
GridN(g) == RTrunc(RAdd(RDiv(RSub(g[3], g[1]), g[2]), RAdd(One, RQ(1, 1000))))
GridAt(g, i) == RAdd(g[1], RMul(R(i-1), g[2]))
UniRange(a, k) == <<At(a, k, 1), At(a, k, 2), At(a, k, 3)>>
UniPoints(a) ==
  LET gx == UniRange(a, 1)  gy == UniRange(a, 2)  gz == UniRange(a, 3)
      nx == GridN(gx)  ny == GridN(gy)  nz == GridN(gz)
  IN TLCEval([k \in 1..(nx * ny * nz) |->
       <<GridAt(gx, ((k-1) \div (ny * nz)) + 1), GridAt(gy, ((k-1) % ny) + 1), GridAt(gz, (((k-1) \div ny) % nz) + 1)>>])
UniCount(a) == GridN(UniRange(a, 1)) * GridN(UniRange(a, 2)) * GridN(UniRange(a, 3))
DasUniCall(rec) ==
  LET A == rec.args
      met == DasMethod(A)
      T == TLCEval([i \in 1..GridN(A[2].v) |-> <<GridAt(A[2].v, i), Zero, Zero>>])
      Rx == IF A[3].r = 0 THEN << >>
            ELSE TLCEval([j \in 1..GridN(A[3].v) |-> IF met = "tfm" THEN <<GridAt(A[3].v, j), Zero, Zero>> ELSE <<Zero, GridAt(A[3].v, j), Zero>>])
      Ro == UniPoints(A[4])
  IN [r |-> Len(Ro), c |-> 1,
      blocks |-> [n \in 1..Len(Ro) |-> DasPoint(rec, met, T, Rx, Ro[n], DelayOf(A[6], n), Num(A[5]), Num(A[7]))],
      lvl |-> "ignore", tol |-> IF Single(rec) THEN RQ(1, 100000) ELSE RQ(1, 1000000000), inplace |-> FALSE]

(***************************************************************************)
(* Calls that run on the OpenCL device: das, dreamrect and dreamcirc with  *)
(* device 'gpu', unless they need what the device's kernels do not have    *)
(* (a delay vector, attenuation).  Those calls neither stop at nor report  *)
(* what is out of bounds.                                                  *)
(***************************************************************************)
Gpu(rec) ==
  LET A == rec.args  fn == rec.fn IN
  /\ rec.cl
  /\ \/ fn = "das_uni"
     \/ fn \in DasFns /\ Len(A) >= 10 /\ A[10].s = "gpu" /\ Numel(A[6]) = 1
     \/ fn \in {"dreamrect", "dreamcirc"} /\ Len(A) >= 7 /\ A[7].s = "gpu" /\ Numel(A[4]) = 1 /\ Lossless(A[5].v[3])
=============================================================================
