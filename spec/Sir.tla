-------------------------------- MODULE Sir --------------------------------
(***************************************************************************)
(* Spatial impulse responses by the discrete representation method:        *)
(* a transducer is a grid of surface elements, each of which radiates one  *)
(* impulse that arrives at the observation point after r/cp.               *)
(*                                                                         *)
(* Units as in DREAM: mm, us, m/s.                                         *)
(***************************************************************************)
EXTENDS DReal, SequencesExt, TLC

Half   == RQ(1, 2)
Two    == R(2)
Zero   == R(0)
One    == R(1)
K1000  == R(1000)
TwoPi  == RMul(R(2), RPi)
Sq(a)  == RMul(a, a)
(* arguments whose decision hangs on the last bits of a double are not judged *)
GapTol == RQ(1, 5000000)
GridTol == RQ(1, 100000000)

(***************************************************************************)
(* Grids.  lo, lo+step, lo+2*step, ... while <= hi.                        *)
(***************************************************************************)
RECURSIVE StepFrom(_, _, _)
StepFrom(x, hi, step) == IF RLeq(x, hi) THEN <<x>> \o StepFrom(RAdd(x, step), hi, step) ELSE << >>
Grid(lo, hi, step) == StepFrom(RAdd(lo, RDiv(step, Two)), hi, step)

(* is the number of grid points uncertain in the last bits? *)
GridAmb(lo, hi, step) ==
  LET n == RDiv(RSub(RSub(hi, lo), RDiv(step, Two)), step) IN RLt(RTruncGap(n), GridTol)

(***************************************************************************)
(* Surface elements: <<x, y, z, ds>> sequences, element centre and area.   *)
(***************************************************************************)
LineSurf(a, dx, dy) ==
  LET h == RDiv(a, Two)  ds == RMul(dx, dy)
      xs == Grid(RNeg(h), h, dx)
  IN [els |-> TLCEval([i \in 1..Len(xs) |-> <<xs[i], Zero, Zero, ds>>]),
      amb |-> GridAmb(RNeg(h), h, dx)]

RectSurf(a, b, dx, dy) ==
  LET ha == RDiv(a, Two)  hb == RDiv(b, Two)  ds == RMul(dx, dy)
      xs == TLCEval(Grid(RNeg(ha), ha, dx))
      ys == TLCEval(Grid(RNeg(hb), hb, dy))
      nx == Len(xs)
  IN [els |-> TLCEval([i \in 1..(nx * Len(ys)) |-> <<xs[((i-1) % nx) + 1], ys[((i-1) \div nx) + 1], Zero, ds>>]),
      amb |-> GridAmb(RNeg(ha), ha, dx) \/ GridAmb(RNeg(hb), hb, dy)]

(* rows of a disc: for each y the chord [-rx, rx], rx = sqrt(R^2 - y^2) *)
DiscRows(rad, dy) ==
  LET ys == Grid(RNeg(rad), rad, dy)
  IN TLCEval([j \in 1..Len(ys) |-> <<ys[j], RSqrt(RMax(Zero, RSub(Sq(rad), Sq(ys[j]))))>>])
DiscAmb(rad, dx, dy) ==
  \/ GridAmb(RNeg(rad), rad, dy)
  \/ LET rows == DiscRows(rad, dy) IN \E j \in 1..Len(rows) : GridAmb(RNeg(rows[j][2]), rows[j][2], dx)
DiscPoints(rad, dx, dy) ==
  LET rows == DiscRows(rad, dy)
  IN TLCEval(FlattenSeq([j \in 1..Len(rows) |->
       LET y == rows[j][1]
           xs == TLCEval(Grid(RNeg(rows[j][2]), rows[j][2], dx))
       IN TLCEval([i \in 1..Len(xs) |-> <<xs[i], y>>])]))

CircSurf(rad, dx, dy) ==
  LET pts == DiscPoints(rad, dx, dy)  ds == RMul(dx, dy)
  IN [els |-> TLCEval([i \in 1..Len(pts) |-> <<pts[i][1], pts[i][2], Zero, ds>>]),
      amb |-> DiscAmb(rad, dx, dy)]

(* spherical cap of radius |Rc| over the disc of radius rad.  Concave caps (Rc >= 0) bend towards the medium,
   convex ones away from it. *)
SphereSurf(rad, Rc, dx, dy) ==
  LET pts == DiscPoints(rad, dx, dy)  ds == RMul(dx, dy)  A == RAbs(Rc)
      sag(x, y) == RSub(A, RSqrt(RSub(RSub(Sq(A), Sq(x)), Sq(y))))
      z(x, y) == IF RLeq(Zero, Rc) THEN sag(x, y) ELSE RNeg(sag(x, y))
  IN [els |-> TLCEval([i \in 1..Len(pts) |-> <<pts[i][1], pts[i][2], z(pts[i][1], pts[i][2]), ds>>]),
      amb |-> DiscAmb(rad, dx, dy)]

(* cylindrical strip: width a along x, chord b along y, curvature radius |Rc|; elements are equidistant in angle *)
CylSurf(a, b, Rc, dx, dy) ==
  LET ha == RDiv(a, Two)  hb == RDiv(b, Two)  A == RAbs(Rc)
      zr == RSub(A, RSqrt(RSub(Sq(A), Sq(hb))))
      phi == RMul(Two, RAtan(RDiv(hb, RSub(A, zr))))
      dphi == RAsin(RDiv(dy, A))
      ds == RMul(RMul(A, dx), dphi)
      hp == RDiv(phi, Two)
      xs == TLCEval(Grid(RNeg(ha), ha, dx))
      ph == TLCEval(Grid(RNeg(hp), hp, dphi))
      nx == Len(xs)
      yz == TLCEval([j \in 1..Len(ph) |->
              LET y == RMul(A, RSin(ph[j]))
                  s == RSub(A, RSqrt(RSub(Sq(A), Sq(y))))
              IN <<y, IF RLeq(Zero, Rc) THEN s ELSE RNeg(s)>>])
  IN [els |-> TLCEval([i \in 1..(nx * Len(ph)) |->
               LET j == ((i-1) \div nx) + 1 IN <<xs[((i-1) % nx) + 1], yz[j][1], yz[j][2], ds>>]),
      amb |-> GridAmb(RNeg(ha), ha, dx) \/ GridAmb(RNeg(hp), hp, dphi)]

(***************************************************************************)
(* Focusing of a single aperture: the element at (x, y) is delayed so that *)
(* its contribution meets that of the aperture's edge at distance F.       *)
(***************************************************************************)
Hyp(x, F) == RSqrt(RAdd(Sq(x), Sq(F)))
PathDelay(dist, cp) == RDiv(RMul(dist, K1000), cp)
ApertureFocus(met, F, cp, xmax, ymax, rmax, x, y) ==
  CASE met = "x"   -> PathDelay(RSub(Hyp(xmax, F), Hyp(x, F)), cp)
    [] met = "y"   -> PathDelay(RSub(Hyp(ymax, F), Hyp(y, F)), cp)
    [] met \in {"xy", "on"} -> PathDelay(RSub(Hyp(rmax, F), RSqrt(RAdd(RAdd(Sq(x), Sq(y)), Sq(F)))), cp)
    [] met = "x+y" -> PathDelay(RSub(Hyp(rmax, F), RAdd(Hyp(x, F), Hyp(y, F))), cp)
    [] OTHER -> Zero

(***************************************************************************)
(* Arrivals.  For every surface element e of S: the sample number k (from  *)
(* 0) nearest to its arrival, its Rayleigh weight, its distance, and       *)
(* whether the choice of k hangs on the last bits.                         *)
(*   at: observation point relative to the transducer                      *)
(*   fd[e]: focusing delay of the element (or a constant)                  *)
(***************************************************************************)
Arrivals(els, at, fd(_), delay, wgt, p) ==
  TLCEval([e \in 1..Len(els) |->
    LET s == els[e]
        r == RSqrt(RAdd(RAdd(Sq(RSub(at[1], s[1])), Sq(RSub(at[2], s[2]))), Sq(RSub(at[3], s[3]))))
        w == RMul(RDiv(RDiv(RMul(RMul(wgt, p.v), s[4]), RMul(TwoPi, r)), p.dt), K1000)
        u == RDiv(RAdd(RSub(RDiv(RMul(r, K1000), p.cp), delay), fd(e)), p.dt)
    IN <<RRint(u), w, r, RLt(RRintGap(u), GapTol)>>])

(***************************************************************************)
(* Attenuation: the lossy Green's function of one element, sampled in the  *)
(* frequency domain (Piwakowski & Sbai / Aki & Richards), inverse DFT over *)
(* the response length.  The sum over elements is taken before the         *)
(* (linear) inverse DFT.                                                   *)
(***************************************************************************)
LossySum(arr, dt, nt, alpha) ==
  LET a  == RDiv(alpha, RMul(RQ(8686, 1000), R(10000)))
      T  == RMul(dt, RQ(1, 1000000))
      a1 == RDiv(RMul(T, RQ(95, 100)), RPi)
      Fs == RDiv(One, T)
      K  == nt \div 2
      N  == Len(arr)
      w(k) == RMul(RDiv(RMul(R(k), TwoPi), R(nt)), Fs)
      bin(k) ==
        LET wk == w(k)
            b  == RLn(RDiv(One, RMul(a1, wk)))
            g  == RDiv(RMul(wk, a), RMul(RPi, RPi))
            c  == TLCEval([e \in 1..N |->
                    LET rm == RMul(arr[e][3], RQ(1, 1000))
                        te == RMul(R(arr[e][1]), T)
                        am == RMul(arr[e][2], RExp(RNeg(RMul(RMul(rm, a), RDiv(wk, TwoPi)))))
                        ph == RNeg(RAdd(RMul(RMul(rm, g), b), RMul(te, wk)))
                    IN <<RMul(am, RCos(ph)), RMul(am, RSin(ph))>>])
        IN <<RSum([e \in 1..N |-> c[e][1]]), RSum([e \in 1..N |-> c[e][2]])>>
      X  == TLCEval([k \in 1..K |-> bin(k)])
      dc == RSum([e \in 1..N |-> arr[e][2]])
      CT == TLCEval([m \in 1..nt |-> RCos(RDiv(RMul(R(m-1), TwoPi), R(nt)))])
      ST == TLCEval([m \in 1..nt |-> RSin(RDiv(RMul(R(m-1), TwoPi), R(nt)))])
      ang(k, i) == ((k * i) % nt) + 1
      half(k) == nt = 2 * k
      term(k, i) == IF half(k) THEN RMul(X[k][1], CT[ang(k, i)])
                    ELSE RMul(Two, RSub(RMul(X[k][1], CT[ang(k, i)]), RMul(X[k][2], ST[ang(k, i)])))
  IN TLCEval([i \in 1..nt |-> RDiv(RAdd(dc, RSum([k \in 1..K |-> term(k, i-1)])), R(nt))])

(***************************************************************************)
(* A response column: samples h, how many arrivals hit each sample (c, 0   *)
(* means the sample must be exactly zero), any arrival outside, ambiguity. *)
(***************************************************************************)
Lossless(alpha) == RLeq(alpha, "2.220446049250313E-16")
Fold(arr, p) ==
  LET in(a) == a[1] >= 0 /\ a[1] < p.nt
      ins == SelectSeq(arr, in)
      n == Len(arr)
      ix == [e \in 1..n |-> arr[e][1] + 1]
  IN [h |-> IF Lossless(p.alpha) THEN RScatter(p.nt, ix, [e \in 1..n |-> arr[e][2]])
            ELSE IF Len(ins) = 0 THEN [i \in 1..p.nt |-> Zero] ELSE LossySum(ins, p.dt, p.nt, p.alpha),
      c |-> IF Lossless(p.alpha) THEN RScatter(p.nt, ix, [e \in 1..n |-> 1])
            ELSE [i \in 1..p.nt |-> IF Len(ins) = 0 THEN 0 ELSE 1],
      oob |-> Len(ins) < n,
      amb |-> \E e \in 1..n : arr[e][4]]
=============================================================================
