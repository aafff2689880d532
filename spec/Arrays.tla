------------------------------ MODULE Arrays ------------------------------
(* Array transducers: superposition of element responses, delay laws, apodization windows, annular rings. *)
EXTENDS Sir

(***************************************************************************)
(* G is the sequence of element centres <<gx, gy, gz>>.                    *)
(***************************************************************************)
MaxOf(s) == FoldLeft(LAMBDA a, b : RMax(a, b), Zero, s)
Extent(G) ==
  LET xm == MaxOf([n \in 1..Len(G) |-> RAbs(G[n][1])])
      ym == MaxOf([n \in 1..Len(G) |-> RAbs(G[n][2])])
  IN [x |-> xm, y |-> ym, r |-> RSqrt(RAdd(Sq(xm), Sq(ym)))]

(* Focusing: path from the array's outermost extent minus the element's own path; 'ud' is the user's delay. *)
ArrayFocus(met, focal, n, g, X, cp) ==
  IF met = "ud" THEN focal[n]
  ELSE ApertureFocus(met, focal[1], cp, X.x, X.y, X.r, g[1], g[2])

Deg(a) == RMul(a, RDiv(RPi, R(180)))
SteerX(theta, g, X, cp) == PathDelay(RMul(RAdd(X.x, g[1]), RSin(Deg(theta))), cp)
SteerY(phi, g, X, cp)   == PathDelay(RMul(RAdd(X.y, g[2]), RSin(Deg(phi))), cp)
Steer(met, theta, phi, g, X, cp) ==
  CASE met = "x"  -> SteerX(theta, g, X, cp)
    [] met = "y"  -> SteerY(phi, g, X, cp)
    [] met = "xy" -> RAdd(SteerX(theta, g, X, cp), SteerY(phi, g, X, cp))
    [] OTHER -> Zero

(***************************************************************************)
(* Windows on the relative radius q = r / r_max in [0, 1].                 *)
(***************************************************************************)
Window(met, q, par) ==
  LET c == RCos(RMul(RAdd(q, One), RPi)) IN
  CASE met = "triangle" -> RSub(One, q)
    [] met = "gauss"    -> RExp(RNeg(RMul(par, Sq(q))))
    [] met = "raised"   -> RAdd(par, RCos(RMul(q, RPi)))
    [] met = "hann"     -> RMul(Half, RSub(One, c))
    [] met = "hamming"  -> RSub(RQ(25, 46), RMul(RQ(21, 46), c))
    [] met = "simply"   -> RSub(One, Sq(q))
    [] met = "clamped"  -> Sq(RSub(One, Sq(q)))
    [] OTHER -> One
Weight(met, apod, par, n, rad, rmax) ==
  CASE met = "off" -> One
    [] met = "ud"  -> apod[n]
    (* an array without extent: all its elements are at the centre *)
    [] OTHER -> Window(met, IF REq(rmax, 0) THEN Zero ELSE RDiv(rad, rmax), par)

(***************************************************************************)
(* One observation point of an array of identical elements with surface S. *)
(***************************************************************************)
ArrayArrivals(els, G, at, delay, L, p) ==
  LET X == TLCEval(Extent(G))
      one(n) ==
        LET g == G[n]
            d == RSub(RSub(delay, ArrayFocus(L.fmet, L.focal, n, g, X, p.cp)), Steer(L.smet, L.theta, L.phi, g, X, p.cp))
            w == Weight(L.amet, L.apod, L.apar, n, RSqrt(RAdd(Sq(g[1]), Sq(g[2]))), X.r)
        IN Arrivals(els, <<RSub(at[1], g[1]), RSub(at[2], g[2]), RSub(at[3], g[3])>>, LAMBDA e : Zero, TLCEval(d), TLCEval(w), p)
  IN TLCEval(FlattenSeq([n \in 1..Len(G) |-> one(n)]))

(***************************************************************************)
(* Annular array: radii r1 < r2 < ... (odd number).  Ring n is bounded by  *)
(* discs 2n-2 and 2n-1; the innermost element is the disc of radius r1.    *)
(***************************************************************************)
Rings(Gr) == (Len(Gr) + 1) \div 2
RingRadius(Gr, n) == IF n = 1 THEN Zero ELSE RDiv(RAdd(Gr[2*n-1], Gr[2*n-2]), Two)
AnnularFocus(met, focal, n, Gr, cp) ==
  CASE met = "off" -> Zero
    [] met = "ud"  -> focal[n]
    [] OTHER -> PathDelay(RSub(Hyp(RingRadius(Gr, Rings(Gr)), focal[1]), Hyp(RingRadius(Gr, n), focal[1])), cp)
AnnularPoint(Gr, discs, at, delay, L, p) ==
  LET N == Rings(Gr)
      skip(j) == j = 1 /\ RLeq(Gr[1], "2.220446049250313E-16")
      D == TLCEval([j \in 1..Len(Gr) |->
             IF skip(j) THEN [h |-> [i \in 1..p.nt |-> Zero], c |-> [i \in 1..p.nt |-> Zero], oob |-> FALSE, amb |-> FALSE]
             ELSE Fold(Arrivals(discs[j].els, at, LAMBDA e : Zero, delay, One, p), p)])
      F == TLCEval([n \in 1..N |->
             LET u == RDiv(AnnularFocus(L.fmet, L.focal, n, Gr, p.cp), p.dt) IN <<RRint(u), RLt(RRintGap(u), GapTol)>>])
      W == TLCEval([n \in 1..N |-> Weight(L.amet, L.apod, L.apar, n, RingRadius(Gr, n), RingRadius(Gr, N))])
      ring(n, i) == IF n = 1 THEN D[1].h[i] ELSE RSub(D[2*n-1].h[i], D[2*n-2].h[i])
      hit(n, i)  == IF n = 1 THEN RLt(Zero, D[1].c[i]) ELSE RLt(Zero, D[2*n-1].c[i]) \/ RLt(Zero, D[2*n-2].c[i])
      at1(n, i) == i - F[n][1]            \* sample of ring n that lands on output sample i
      ok(n, i) == at1(n, i) \in 1..p.nt
  IN [h |-> TLCEval([i \in 1..p.nt |-> RSum([n \in 1..N |-> IF ok(n, i) THEN RMul(W[n], ring(n, at1(n, i))) ELSE Zero])]),
      c |-> TLCEval([i \in 1..p.nt |-> IF \E n \in 1..N : ok(n, i) /\ hit(n, at1(n, i)) THEN 1 ELSE 0]),
      (* magnitude the rings had before they were subtracted: the scale of rounding errors *)
      m |-> RMaxAbs(FlattenSeq([j \in 1..Len(Gr) |-> D[j].h])),
      oob |-> \E j \in 1..Len(Gr) : D[j].oob,
      amb |-> (\E j \in 1..Len(Gr) : D[j].amb \/ discs[j].amb) \/ \E n \in 1..N : F[n][2]]
=============================================================================
