------------------------------- MODULE Lemmas -------------------------------
(***************************************************************************)
(* Does the specification say what it should?  The code is compared with   *)
(* operators such as RectSurf, Arrivals, Fold or Paths; this module checks  *)
(* laws those operators must obey - superposition, symmetry, reciprocity,  *)
(* travel times that meet at the focus, agreement with independent closed  *)
(* forms - over a grid of parameters, so that a slip in the specification  *)
(* is not silently imposed on the code.                                    *)
(*                                                                         *)
(* A state is a lemma's name and a tuple of small integers; Inv holds of   *)
(* it when the lemma does.  Group selects the lemmas of one property.      *)
(***************************************************************************)
EXTENDS Judge, FiniteSets
CONSTANT Group
VARIABLE st

Tol == RQ(1, 100000000)
Near1(a, b) == RClose(a, b, RMax(RMax(RAbs(a), RAbs(b)), One), Tol)
SameSeq(a, b) == Len(a) = Len(b) /\ LET m == RMax(RMaxAbs(a), RMaxAbs(b)) IN \A i \in 1..Len(a) : RClose(a[i], b[i], m, Tol)
Plus(a, b) == TLCEval([i \in 1..Len(a) |-> RAdd(a[i], b[i])])
Times(k, a) == TLCEval([i \in 1..Len(a) |-> RMul(k, a[i])])
Minus(a, b) == Plus(a, Times(RNeg(One), b))

(* sampling, medium: dt = 1/20 us, cp = 1480 m/s *)
PGrid(nt, d, e) == [dx |-> d, dy |-> e, dt |-> RQ(1, 20), nt |-> nt, v |-> One, cp |-> R(1480), alpha |-> Zero]
P(nt) == PGrid(nt, RQ(1, 4), RQ(1, 8))
Off(e) == Zero
Resp(els, at, p) == Fold(Arrivals(els, at, Off, Zero, One, p), p)
At3(x, y, z) == <<RQ(x, 10), RQ(y, 10), RQ(z, 10)>>
Shift(at, x, y) == <<RAdd(at[1], x), RAdd(at[2], y), at[3]>>
Neg(x) == RNeg(x)

PointSet == {<<0, 0, 30>>, <<7, -4, 25>>, <<-13, 9, 41>>, <<22, 3, 60>>, <<31, -27, 12>>}
Pt(q) == At3(q[1], q[2], q[3])

(*------------------------------ S01 flat apertures -----------------------*)
(* a rectangle is its two halves *)
SplitRect(n, m, q) ==
  LET w == RQ(n, 4)  b == RQ(m, 4)  a == RMul(Two, w)  h == RDiv(w, Two)  p == P(200)  at == Pt(q)
  IN SameSeq(Resp(RectSurf(a, b, p.dx, p.dy).els, at, p).h,
             Plus(Resp(RectSurf(w, b, p.dx, p.dy).els, Shift(at, h, Zero), p).h, Resp(RectSurf(w, b, p.dx, p.dy).els, Shift(at, Neg(h), Zero), p).h))
TurnRect(n, m, q) ==
  LET a == RQ(n, 4)  b == RQ(m, 4)  p == P(200)  at == Pt(q)
  IN SameSeq(Resp(RectSurf(a, b, p.dx, p.dy).els, at, p).h, Resp(RectSurf(b, a, p.dy, p.dx).els, <<at[2], at[1], at[3]>>, p).h)
MirrorRect(n, m, q) ==
  LET a == RQ(n, 4)  b == RQ(m, 4)  p == P(200)  at == Pt(q)
  IN SameSeq(Resp(RectSurf(a, b, p.dx, p.dy).els, at, p).h, Resp(RectSurf(a, b, p.dx, p.dy).els, <<Neg(at[1]), at[2], at[3]>>, p).h)
LineIsRow(n, q) ==
  LET p == P(200)  a == RQ(n, 4) IN SameSeq(Resp(LineSurf(a, p.dx, p.dy).els, Pt(q), p).h, Resp(RectSurf(a, p.dy, p.dx, p.dy).els, Pt(q), p).h)
(* an advance of k samples *)
Delayed(n, k, q) ==
  LET p == P(200)  els == RectSurf(RQ(n, 4), One, p.dx, p.dy).els
      h == Resp(els, Pt(q), p).h  g == Fold(Arrivals(els, Pt(q), Off, RMul(R(k), p.dt), One, p), p).h
  IN \A i \in 1..(p.nt - k) : Near1(h[i + k], g[i])
(* nothing before the nearest element's arrival, and then the whole impulse sum *)
Causal(n, q) ==
  LET p == P(200)  S == CircSurf(RQ(n, 4), p.dx, p.dy)  A == Arrivals(S.els, Pt(q), Off, Zero, One, p)  f == Fold(A, p)
      near == FoldLeft(LAMBDA a, e : RMin(a, e[3]), R(1000000), A)
  IN /\ \A i \in 1..p.nt : RLt(RMul(R(i), p.dt), PathDelay(near, p.cp)) => REq(f.h[i], Zero)
     /\ Near1(RSum(f.h), RSum([e \in 1..Len(A) |-> A[e][2]]))
     /\ ~ f.oob
(* the discretised Rayleigh integral tends to the closed form: their areas agree to a few percent *)
MeetsClosedForm(n, m, q) ==
  LET a == RQ(n, 4)  b == RQ(m, 4)  p == PGrid(400, RQ(1, 16), RQ(1, 12))  at == Pt(q)
      h == Resp(RectSurf(a, b, p.dx, p.dy).els, at, p).h
      g(i) == LET ct == PathAt(RMul(R(i), p.dt), p.cp) IN
              IF RLt(ct, at[3]) THEN Zero ELSE RMul(p.cp, RectFraction(RMax(RQ(1, 1000000), RSqrt(RSub(Sq(ct), Sq(at[3])))), at[1], at[2], a, b))
      H == RSum(h)  G == RSum([i \in 1..p.nt |-> g(i - 1)])
  IN RLt(RAbs(RSub(H, G)), RMul(RQ(1, 10), RMax(H, G)))

(*------------------------------ S02, A02 focusing ------------------------*)
(* every element's delay plus its way to the focus is the same *)
MeetAtFocus(met, F, x, y) ==
  LET cp == R(1500)  f == RQ(F, 10)  hx == R(2)  hy == R(3)  hr == Hyp(hx, hy)
      X == RQ(x, 10)  Y == RQ(y, 10)
      way(a, b) == PathDelay(CASE met = "x" -> Hyp(a, f) [] met = "y" -> Hyp(b, f) [] OTHER -> RSqrt(RAdd(RAdd(Sq(a), Sq(b)), Sq(f))), cp)
      d(a, b) == ApertureFocus(met, f, cp, hx, hy, hr, a, b)
  IN /\ Near1(RAdd(d(X, Y), way(X, Y)), RAdd(d(Zero, Zero), way(Zero, Zero)))
     /\ RLeq(Neg(RQ(1, 1000000000)), d(X, Y))
FarFocus(met, x, y) == met # "x+y" => RLt(RAbs(ApertureFocus(met, "1.0E9", R(1500), R(2), R(3), Hyp(R(2), R(3)), RQ(x, 10), RQ(y, 10))), RQ(1, 1000000))
NoFocus(x, y) == REq(ApertureFocus("off", R(20), R(1500), R(2), R(3), R(4), RQ(x, 10), RQ(y, 10)), Zero)
FocusOff(n, q) ==
  LET c(met) == FocusCall("dreamcirc_f", << [t |-> "D", r |-> 1, c |-> 3, v |-> Pt(q)], [t |-> "D", r |-> 1, c |-> 1, v |-> <<RQ(n, 2)>>],
                  [t |-> "D", r |-> 1, c |-> 4, v |-> <<RQ(1,4), RQ(1,4), RQ(1,20), R(200)>>], [t |-> "D", r |-> 1, c |-> 1, v |-> <<Zero>>],
                  [t |-> "D", r |-> 1, c |-> 3, v |-> <<One, R(1480), Zero>>], [t |-> "S", s |-> met], [t |-> "D", r |-> 1, c |-> 1, v |-> <<R(30)>>] >>)
  IN SameSeq(c("off").cols[1].h, Resp(CircSurf(RQ(n, 2), RQ(1,4), RQ(1,4)).els, Pt(q), P(200)).h)

(*------------------------------ S03 curved apertures ---------------------*)
OnSphere(n, Rc) ==
  LET S == SphereSurf(RQ(n, 4), R(Rc), RQ(1, 4), RQ(1, 4)).els  A == RAbs(R(Rc)) IN
  \A e \in 1..Len(S) : /\ Near1(RSqrt(RAdd(RAdd(Sq(S[e][1]), Sq(S[e][2])), Sq(RSub(R(Rc), S[e][3])))), A)
                       /\ RLeq(Zero, RMul(R(Rc), S[e][3])) /\ RLeq(RAbs(S[e][3]), A)
OnCylinder(n, Rc) ==
  LET S == CylSurf(One, RQ(n, 4), R(Rc), RQ(1, 4), RQ(1, 8)).els  A == RAbs(R(Rc)) IN
  /\ \A e \in 1..Len(S) : /\ Near1(Hyp(S[e][2], RSub(R(Rc), S[e][3])), A)
                          /\ RLeq(Zero, RMul(R(Rc), S[e][3])) /\ RLeq(RAbs(S[e][2]), RAdd(RQ(n, 8), RQ(1, 100)))
  (* its area is arc length times width, up to one row of elements *)
  /\ LET arc == RMul(RMul(Two, A), RAsin(RDiv(RQ(n, 8), A)))
         area == RSum([e \in 1..Len(S) |-> S[e][4]])
     IN RLt(RAbs(RSub(area, arc)), RQ(1, 6))
FlatCap(n, q) ==
  SameSeq(Resp(SphereSurf(RQ(n, 4), R(1000000000), RQ(1, 4), RQ(1, 4)).els, Pt(q), P(200)).h, Resp(CircSurf(RQ(n, 4), RQ(1, 4), RQ(1, 4)).els, Pt(q), P(200)).h)
(* on its centre of curvature a concave cap is heard at one instant *)
CapFocus(n, Rc) ==
  LET p == P(400)  A == Arrivals(SphereSurf(RQ(n, 4), R(Rc), RQ(1, 4), RQ(1, 4)).els, <<Zero, Zero, R(Rc)>>, Off, Zero, One, p)
  IN \A e \in 1..Len(A) : A[e][1] = A[1][1]

(*------------------------------ S04 closed forms -------------------------*)
Frac(sg, q, n, m) == RectFraction(RQ(sg, 10), RQ(q[1], 10), RQ(q[2], 10), RQ(n, 4), RQ(m, 4))
FractionLaws(sg, n, m, q) ==
  LET f == Frac(sg, q, n, m)  x == RQ(q[1], 10)  y == RQ(q[2], 10)  w == RQ(n, 8) IN
  /\ RLeq(Neg(Tol), f) /\ RLeq(f, RAdd(One, Tol))
  (* the halves of the rectangle *)
  /\ Near1(f, RAdd(RectFraction(RQ(sg, 10), RAdd(x, RDiv(w, Two)), y, w, RQ(m, 4)), RectFraction(RQ(sg, 10), RSub(x, RDiv(w, Two)), y, w, RQ(m, 4))))
  /\ Near1(f, RectFraction(RQ(sg, 10), y, x, RQ(m, 4), RQ(n, 4)))
DiscLaws(sg, d, a) ==
  LET f == DiscFraction(RQ(sg, 10), RQ(d, 10), RQ(a, 10)) IN
  /\ RLeq(Zero, f) /\ RLeq(f, One)
  (* a circle through the disc's inside is whole, one around it or away from it is missed *)
  /\ (sg + d < a => REq(f, One)) /\ (sg > a + d \/ d > a + sg => REq(f, Zero))
  /\ (sg + d > a /\ sg < a + d /\ d < a + sg => RLt(Zero, f) /\ RLt(f, One))
(* count the circle's points on the aperture *)
CountRect(sg, n, m, q) ==
  LET N == 720
      on(k) == LET t == RDiv(RMul(R(2 * k + 1), RPi), R(N))
                   X == RAdd(RQ(q[1], 10), RMul(RQ(sg, 10), RCos(t)))  Y == RAdd(RQ(q[2], 10), RMul(RQ(sg, 10), RSin(t)))
               IN RLeq(RAbs(X), RQ(n, 8)) /\ RLeq(RAbs(Y), RQ(m, 8))
  IN RLt(RAbs(RSub(Frac(sg, q, n, m), RQ(Cardinality({k \in 0..(N-1) : on(k)}), N))), RQ(1, 80))

(*------------------------------ S05 attenuation --------------------------*)
Lossy1(k, w, r, al, nt) == LossySum(<< <<k, R(w), R(r)>> >>, RQ(1, 20), nt, RQ(al, 1000))
Sum(s) == RSum(s)
LossKeepsDC(k, al, nt) == Near1(Sum(Lossy1(k, 1, 30, al, nt)), One)
LossVanishes(k, nt) == LET h == Lossy1(k, 1, 30, 0, nt) IN \A i \in 1..nt : RClose(h[i], IF i = k + 1 THEN One ELSE Zero, One, RQ(1, 1000000))
LossWeakens(k, al, nt) == RLt(RMaxAbs(Lossy1(k, 1, 30, 2 * al, nt)), RAdd(RMaxAbs(Lossy1(k, 1, 30, al, nt)), Tol))
LossAdds(k, j, al, nt) ==
  SameSeq(LossySum(<< <<k, One, R(20)>>, <<j, R(3), R(35)>> >>, RQ(1, 20), nt, RQ(al, 1000)),
          Plus(Lossy1(k, 1, 20, al, nt), Lossy1(j, 3, 35, al, nt)))

(*------------------------------ S06 out of range -------------------------*)
Windows(n, k, q) ==
  LET els == CircSurf(RQ(n, 4), RQ(1, 4), RQ(1, 4)).els  long == Resp(els, Pt(q), P(200))
      short == Resp(els, Pt(q), P(k))
  IN /\ ~ long.oob
     /\ \A i \in 1..k : Near1(short.h[i], long.h[i])
     /\ short.oob = (\E i \in (k+1)..200 : ~ REq(long.h[i], Zero))
Early(n, k, q) ==
  LET els == CircSurf(RQ(n, 4), RQ(1, 4), RQ(1, 4)).els  p == P(200)  long == Resp(els, Pt(q), p)
      late == Fold(Arrivals(els, Pt(q), Off, RMul(R(k), p.dt), One, p), p)
  IN late.oob = (\E i \in 1..k : ~ REq(long.h[i], Zero))

(* the first and the last sample are in range *)
Edges(n, q) ==
  LET els == CircSurf(RQ(n, 4), RQ(1, 4), RQ(1, 4)).els  p == P(200)  h == Resp(els, Pt(q), p).h
      hits == {i \in 1..200 : ~ REq(h[i], Zero)}
      first == CHOOSE i \in hits : \A j \in hits : i <= j
      last == CHOOSE i \in hits : \A j \in hits : j <= i
      adv(k) == Fold(Arrivals(els, Pt(q), Off, RMul(R(k), p.dt), One, p), p)
  IN /\ ~ Resp(els, Pt(q), P(last)).oob /\ Resp(els, Pt(q), P(last - 1)).oob
     /\ ~ adv(first - 1).oob /\ adv(first).oob
     /\ Near1(adv(first - 1).h[1], h[first]) /\ Near1(Resp(els, Pt(q), P(last)).h[last], h[last])

(*------------------------------ A01 arrays -------------------------------*)
Lay(f, s, a, w) == [fmet |-> f, focal |-> <<R(20)>>, smet |-> s, theta |-> R(10), phi |-> R(-5), amet |-> a, apod |-> w, apar |-> One]
Els == RectSurf(RQ(1, 2), One, RQ(1, 4), RQ(1, 4)).els
G3(d) == <<<<RQ(-d, 4), Zero, Zero>>, <<Zero, RQ(d, 8), Zero>>, <<RQ(d, 4), RQ(-d, 8), Zero>>>>
ArrResp(G, at, L) == Fold(ArrayArrivals(Els, G, at, Zero, L, P(250)), P(250)).h
One1(q) == SameSeq(ArrResp(<<<<Zero, Zero, Zero>>>>, Pt(q), Lay("off", "off", "off", <<>>)), Resp(Els, Pt(q), P(250)).h)
Superpose(d, q) ==
  LET L == Lay("off", "off", "off", <<>>)  G == G3(d) IN
  SameSeq(ArrResp(G, Pt(q), L), Plus(Plus(ArrResp(<<G[1]>>, Pt(q), L), ArrResp(<<G[2]>>, Pt(q), L)), ArrResp(<<G[3]>>, Pt(q), L)))
(* the order of the elements does not matter, nor where the origin of an unfocused, unsteered, unweighted array is *)
Reorder(f, s, a, d, q) ==
  LET G == G3(d) IN SameSeq(ArrResp(G, Pt(q), Lay(f, s, a, <<>>)), ArrResp(<<G[3], G[1], G[2]>>, Pt(q), Lay(f, s, a, <<>>)))
Weighted(d, q) ==
  LET G == G3(d)  L(w) == Lay("off", "off", "ud", w)  r(w) == ArrResp(G, Pt(q), L(w)) IN
  /\ SameSeq(r(<<R(2), R(-1), RQ(1, 2)>>), Plus(Plus(Times(R(2), r(<<One, Zero, Zero>>)), Times(R(-1), r(<<Zero, One, Zero>>))), Times(RQ(1, 2), r(<<Zero, Zero, One>>))))
  /\ \A n \in 1..3 : SameSeq(r([k \in 1..3 |-> IF k = n THEN One ELSE Zero]), ArrResp(<<G[n]>>, Pt(q), Lay("off", "off", "off", <<>>)))
Moved(d, q) ==
  LET G == G3(d)  L == Lay("off", "off", "off", <<>>)  at == Pt(q)
      H == [n \in 1..3 |-> <<RAdd(G[n][1], One), RSub(G[n][2], Half), RAdd(G[n][3], RQ(1, 5))>>]
  IN SameSeq(ArrResp(G, at, L), ArrResp(H, <<RAdd(at[1], One), RSub(at[2], Half), RAdd(at[3], RQ(1, 5))>>, L))

(*------------------------------ A02 array focusing -----------------------*)
(* the toolbox's helper script and the array functions use the same law for symmetric linear arrays *)
HelperLaw(L, pitch, F) ==
  LET gx == TLCEval([n \in 1..L |-> RMul(RQ(2 * n - L - 1, 2), RQ(pitch, 4))])
      G == [n \in 1..L |-> <<gx[n], Zero, Zero>>]  X == Extent(G)
      S(x) == [t |-> "D", r |-> 1, c |-> 1, v |-> <<x>>]
      d == DelaysCall(<<[t |-> "D", r |-> 1, c |-> L, v |-> gx], S(R(1500)), S(R(F)), S(Zero)>>).blocks[1].h
  IN \A n \in 1..L : /\ Near1(d[n], ArrayFocus("x", <<R(F)>>, n, G[n], X, R(1500)))
                     /\ Near1(d[n], ArrayFocus("xy", <<R(F)>>, n, G[n], X, R(1500)))
SteerLaws(L, pitch, th) ==
  LET gx == TLCEval([n \in 1..L |-> RMul(RQ(2 * n - L - 1, 2), RQ(pitch, 4))])
      X == Extent([n \in 1..L |-> <<gx[n], Zero, Zero>>])
      s(n) == Steer("x", R(th), Zero, <<gx[n], Zero, Zero>>, X, R(1500))
  IN /\ \A n \in 1..(L-1) : Near1(RSub(s(n+1), s(n)), PathDelay(RMul(RQ(pitch, 4), RSin(Deg(R(th)))), R(1500)))   \* a plane wave's slope
     /\ th >= 0 => \A n \in 1..L : RLeq(Neg(Tol), s(n))
     /\ Steer("off", R(th), R(th), <<gx[1], Zero, Zero>>, X, R(1500)) = Zero
     /\ Near1(Steer("xy", R(th), R(7), <<gx[1], One, Zero>>, X, R(1500)),
              RAdd(Steer("x", R(th), R(7), <<gx[1], One, Zero>>, X, R(1500)), Steer("y", R(th), R(7), <<gx[1], One, Zero>>, X, R(1500))))

(*------------------------------ A03 windows ------------------------------*)
WindowLaws(met, k, par) ==
  LET w(j) == Window(met, RQ(j, 20), RQ(par, 2)) IN
  /\ met # "raised" => Near1(w(0), One)
  /\ met = "raised" => Near1(w(0), RAdd(One, RQ(par, 2)))
  /\ (k < 20 => RLeq(w(k+1), RAdd(w(k), Tol)))                        \* never rises towards the edge
  /\ met \in {"triangle", "hann", "simply", "clamped"} => Near1(w(20), Zero)
  /\ met = "hamming" => Near1(w(20), RQ(4, 46))
  /\ met = "clamped" => Near1(RSqrt(w(k)), Window("simply", RQ(k, 20), RQ(par, 2)))
  /\ met = "simply" => Near1(RAdd(w(k), Sq(RQ(k, 20))), One)
  /\ met = "triangle" => Near1(RAdd(w(k), RQ(k, 20)), One)
  (* hann and hamming are raised cosines, mirrored about their middle *)
  /\ met = "hann" => Near1(RAdd(w(k), w(20 - k)), One) /\ Near1(w(k), Sq(RCos(RMul(RQ(k, 40), RPi))))
  /\ met = "hamming" => Near1(RAdd(w(k), w(20 - k)), RQ(50, 46)) /\ Near1(w(k), RAdd(RQ(4, 46), RMul(RQ(42, 46), Window("hann", RQ(k, 20), One))))
  /\ met = "gauss" => Near1(w(20), RExp(Neg(RQ(par, 2)))) /\ Near1(RMul(w(k), RExp(RMul(RQ(par, 2), Sq(RQ(k, 20))))), One)
  /\ met = "raised" => Near1(RAdd(w(k), w(20 - k)), R(par))
  /\ met # "raised" => RLeq(Neg(Tol), w(k)) /\ RLeq(w(k), RAdd(One, Tol))

(*------------------------------ A04 annular arrays -----------------------*)
AnnuL(f, a, w) == [fmet |-> f, focal |-> <<R(25)>>, amet |-> a, apod |-> w, apar |-> One]
Discs(Gr, p) == TLCEval([j \in 1..Len(Gr) |-> CircSurf(Gr[j], p.dx, p.dy)])
Annu(Gr, at, L) == AnnularPoint(Gr, Discs(Gr, P(250)), at, Zero, L, P(250)).h
Disc(r, at) == LET p == P(250) IN Resp(CircSurf(r, p.dx, p.dy).els, at, p).h
Rad(g) == TLCEval([i \in 1..Len(g) |-> RQ(g[i], 8)])
AnnuRings(g, q) ==
  LET Gr == Rad(g)  N == Rings(Gr)  at == Pt(q)
      e(n) == [k \in 1..N |-> IF k = n THEN One ELSE Zero]
      whole == Annu(Gr, at, AnnuL("off", "off", <<>>))
      part == TLCEval([n \in 1..N |-> Annu(Gr, at, AnnuL("off", "ud", e(n)))])
      ring(n) == IF n = 1 THEN Disc(Gr[1], at) ELSE Minus(Disc(Gr[2*n-1], at), Disc(Gr[2*n-2], at))
  IN /\ SameSeq(whole, FoldLeft(LAMBDA a, n : Plus(a, part[n]), [i \in 1..250 |-> Zero], [n \in 1..N |-> n]))
     /\ \A n \in 1..N : SameSeq(part[n], ring(n))
AnnuMeet(g, F) ==
  LET Gr == Rad(g)  N == Rings(Gr)
      d(n) == RAdd(AnnularFocus("on", <<R(F)>>, n, Gr, R(1500)), PathDelay(Hyp(RingRadius(Gr, n), R(F)), R(1500)))
  IN \A n \in 1..N : Near1(d(n), d(1)) /\ RLeq(Neg(Tol), AnnularFocus("on", <<R(F)>>, n, Gr, R(1500)))

(*------------------------------ D01 D02 D03 beamforming ------------------*)
K == 60
M(r, c, v) == [t |-> "D", r |-> r, c |-> c, v |-> v]
Num1(x) == M(1, 1, <<x>>)
Data(n, seed) == TLCEval([i \in 1..(K * n) |-> RQ(((i * 7919 + seed * 104729 + i * i * 31) % 201) - 100, 50)])
Pos(G) == M(Len(G), 3, [k \in 1..(3 * Len(G)) |-> G[((k-1) % Len(G)) + 1][((k-1) \div Len(G)) + 1]])
NoPos == M(0, 0, << >>)
Image(met, Y, T, Rx, at, delay) ==
  LET rec == [fn |-> "das", api |-> "oct", cl |-> FALSE,
              args |-> <<M(K, Len(Y) \div K, Y), Pos(T), IF Len(Rx) = 0 THEN NoPos ELSE Pos(Rx), Pos(<<at>>), Num1(RQ(1, 10)), Num1(RQ(delay, 10)), Num1(R(1480)), [t |-> "S", s |-> met]>>]
  IN DasCall(rec).blocks[1].h[1]
Trace1(Y, k) == SubSeq(Y, (k-1) * K + 1, k * K)
Line(n, d, y) == [i \in 1..n |-> <<RQ((2 * i - n - 1) * d, 8), RQ(y, 4), Zero>>]
Col(n, d) == [j \in 1..n |-> <<Zero, RQ((2 * j - n - 1) * d, 8), Zero>>]
SaftAdds(n, d, q, s) ==
  LET Y == Data(n, s)  T == Line(n, d, 0) IN
  Near1(Image("saft", Y, T, << >>, Pt(q), 3), RSum([i \in 1..n |-> Image("saft", Trace1(Y, i), <<T[i]>>, << >>, Pt(q), 3)]))
(* synthetic aperture data are the diagonal of the full matrix; its start delay counts on both ways *)
SaftIsDiagonal(n, d, q, s) ==
  LET Y == Data(n, s)  T == Line(n, d, 0)
      F == TLCEval([k \in 1..(K * n * n) |-> LET c == (k-1) \div K  i == c \div n  j == c % n IN IF i = j THEN Y[i * K + ((k-1) % K) + 1] ELSE Zero])
  IN Near1(Image("saft", Y, T, << >>, Pt(q), 2), Image("tfm", F, T, T, Pt(q), 4))
Reciprocal(met, n, m, d, q, s) ==
  LET Y == Data(n * m, s)
      (* the traces with transmit and receive exchanged *)
      Z == TLCEval([k \in 1..(K * n * m) |-> LET c == (k-1) \div K  j == c \div n  i == c % n IN Y[(i * m + j) * K + ((k-1) % K) + 1]])
      T == Line(n, d, 0)  Rx == IF met = "tfm" THEN Line(m, d, 3) ELSE Col(m, d)
  IN IF met = "tfm" THEN Near1(Image("tfm", Y, T, Rx, Pt(q), 1), Image("tfm", Z, Rx, T, Pt(q), 1))
     ELSE Near1(Image("rca_coltx", Y, T, Rx, Pt(q), 1), Image("rca_rowtx", Z, T, Rx, Pt(q), 1))
(* the distance to an element of finite length is the least distance to its points *)
LineDistance(n, d, q) ==
  LET T == Line(n, d, 0)  Rx == Col(n + 1, d)  at == Pt(q)  N == 200
      pt(i, k) == <<T[i][1], RAdd(Rx[1][2], RMul(RQ(k, N), RSub(Rx[n+1][2], Rx[1][2]))), Zero>>
      least(i) == FoldLeft(LAMBDA a, k : RMin(a, Dist3(pt(i, k), at)), R(1000), [k \in 1..(N+1) |-> k - 1])
  IN \A i \in 1..n : RLt(RAbs(RSub(least(i), ColDist(T[i], Rx, at))), RQ(1, 100))

RowDistance(n, d, q) ==
  LET T == Line(n + 1, d, 0)  Rx == Col(n, d)  at == Pt(q)  N == 200
      pt(j, k) == <<RAdd(T[1][1], RMul(RQ(k, N), RSub(T[n+1][1], T[1][1]))), Rx[j][2], Zero>>
      least(j) == FoldLeft(LAMBDA a, k : RMin(a, Dist3(pt(j, k), at)), R(1000), [k \in 1..(N+1) |-> k - 1])
  IN \A j \in 1..n : RLt(RAbs(RSub(least(j), RowDist(Rx[j], T, at))), RQ(1, 100))

(*------------------------------ C01 C02 C04 convolution ------------------*)
Vec1(n, s) == TLCEval([i \in 1..n |-> RQ(((i * 7919 + s * 104729 + i * i * 31) % 41) - 20, 8)])
ConvLaws(n, m, s) ==
  LET x == Vec1(n, s)  y == Vec1(m, s + 1)  z == Vec1(3, s + 2)
      unit(k) == [i \in 1..k |-> IF i = k THEN One ELSE Zero]
  IN /\ SameSeq(LinConv(x, y), LinConv(y, x))
     /\ SameSeq(LinConv(LinConv(x, y), z), LinConv(x, LinConv(y, z)))
     /\ SameSeq(LinConv(x, unit(m)), [i \in 1..(n + m - 1) |-> IF i >= m THEN x[i - m + 1] ELSE Zero])
     /\ Near1(RSum(LinConv(x, y)), RMul(RSum(x), RSum(y)))
ModesCancel(n, m, s) ==
  LET old == Vec1(n + m - 1, s + 5)  c == LinConv(Vec1(n, s), Vec1(m, s + 1)) IN
  /\ SameSeq(Apply("-=", Apply("+=", old, c), c), old)
  /\ SameSeq(Apply("=", old, c), c)
(* 3 planes: the sum over the planes, and a single plane is a convolution divided by the transform's length *)
SumPlanes(n, m, L, s) ==
  LET H == [t |-> "D", r |-> n, c |-> 2, l |-> L, v |-> Vec1(n * 2 * L, s)]  U == M(m, L, Vec1(m * L, s + 3))
      one(k) == LinConv(PlaneColumn(H, 2, k), Column(U, k))
      all == FoldLeft(LAMBDA a, k : Plus(a, one(k)), [i \in 1..(n + m - 1) |-> Zero], [k \in 1..L |-> k])
      pos(r, c, k) == 100 * r + 10 * c + k
      I == [t |-> "D", r |-> n, c |-> 2, l |-> L, v |-> TLCEval([x \in 1..(n * 2 * L) |-> R(pos(((x-1) % n) + 1, (((x-1) \div n) % 2) + 1, ((x-1) \div (2 * n)) + 1))])]
  IN /\ SameSeq(Times(R(n + m - 1), SumColumn(H, U, 2)), all)
     /\ \A r \in 1..n, c \in 1..2, k \in 1..L : REq(PlaneColumn(I, c, k)[r], R(pos(r, c, k)))

(*------------------------------ M01 sub-matrices -------------------------*)
Sub(fn, D, r0, r1, c0, c1, B) == SubCall(fn, <<D, M(1, 2, <<R(r0), R(r1)>>), M(1, 2, <<R(c0), R(c1)>>), B>>)
SubMatrix(E) == M(E.r, E.c, FlattenSeq([j \in 1..E.c |-> E.blocks[j].h]))
SubLaws(r, c, r0, r1, c0, c1) ==
  (r0 <= r1 /\ r1 <= r /\ c0 <= c1 /\ c1 <= c) =>
  LET D == M(r, c, Vec1(r * c, 1))  n == r1 - r0 + 1  m == c1 - c0 + 1  B == M(n, m, Vec1(n * m, 2))
      X == SubMatrix(Sub("copy_p", D, r0, r1, c0, c1, B))
      Y == SubMatrix(Sub("add_p", D, r0, r1, c0, c1, B))
      Z == SubMatrix(Sub("add_p", Y, r0, r1, c0, c1, M(n, m, Times(RNeg(One), B.v))))
  IN /\ \A i \in 1..r, j \in 1..c :
          IF i \in r0..r1 /\ j \in c0..c1
          THEN REq(At(X, i, j), At(B, i - r0 + 1, j - c0 + 1)) /\ Near1(At(Y, i, j), RAdd(At(D, i, j), At(B, i - r0 + 1, j - c0 + 1)))
          ELSE REq(At(X, i, j), At(D, i, j)) /\ REq(At(Y, i, j), At(D, i, j))
     /\ SameSeq(Z.v, D.v)

(*------------------------------ G02 grids --------------------------------*)
GridLaws(nx, ny, nz) ==
  LET g(n, k) == <<RQ(k, 3), RQ(1, 3 + k), RAdd(RQ(k, 3), RMul(R(n - 1), RQ(1, 3 + k)))>>
      x == g(nx, 1)  y == g(ny, 2)  z == g(nz, 4)
      A == M(3, 3, <<x[1], y[1], z[1], x[2], y[2], z[2], x[3], y[3], z[3]>>)
      U == UniPoints(A)
  IN /\ Len(U) = nx * ny * nz /\ UniCount(A) = nx * ny * nz
     /\ \A i \in 1..nx, j \in 1..ny, k \in 1..nz :
          LET u == U[(i - 1) * ny * nz + (k - 1) * ny + j] IN
          Near1(u[1], RAdd(x[1], RMul(R(i-1), x[2]))) /\ Near1(u[2], RAdd(y[1], RMul(R(j-1), y[2]))) /\ Near1(u[3], RAdd(z[1], RMul(R(k-1), z[2])))

(*------------------------------ F01 sound speed --------------------------*)
(* reference values: pure water and sea water at atmospheric pressure, published tables *)
SpeedRefs == <<  <<0, 0, "1402.39">>, <<10, 0, "1447.27">>, <<20, 0, "1482.34">>, <<25, 0, "1496.69">>, <<0, 35, "1449.1">>, <<10, 35, "1489.8">>, <<20, 35, "1521.5">> >>
SpeedRef(k) == LET r == SpeedRefs[k] IN RLt(RAbs(RSub(SoundSpeed(R(r[1]), R(r[2]), Zero), r[3])), One)
(* warmer, saltier, deeper is faster, within the range the equation was fitted to *)
SpeedRises(T, S, p) ==
  LET c(a, b, d) == SoundSpeed(R(a), R(b), R(d)) IN
  RLt(c(T, S, p), c(T + 1, S, p)) /\ RLt(c(T, S, p), c(T, S + 1, p)) /\ RLt(c(T, S, p), c(T, S, p + 20))

(***************************************************************************)
Sizes(lo, hi) == lo..hi
Mets == {"x", "y", "xy"}
Names(g) ==
  CASE g = "S01" -> {"split", "turn", "mirror", "line", "delayed", "causal", "closed"}
    [] g = "S02" -> {"meet", "far", "nofocus", "focusoff"}
    [] g = "S03" -> {"sphere", "cylinder", "flatcap", "capfocus"}
    [] g = "S04" -> {"fraction", "disc", "count"}
    [] g = "S05" -> {"lossdc", "loss0", "lossweak", "lossadd"}
    [] g = "S06" -> {"windows", "early", "edges"}
    [] g = "A01" -> {"one", "superpose", "reorder", "weighted", "moved"}
    [] g = "A02" -> {"helper", "steer", "meet"}
    [] g = "A03" -> {"window"}
    [] g = "A04" -> {"rings", "ringmeet"}
    [] g = "D01" -> {"saftadds", "diagonal"}
    [] g = "D02" -> {"diagonal", "reciprocal"}
    [] g = "D03" -> {"rcarec", "linedist", "rowdist"}
    [] g = "C01" -> {"conv"}
    [] g = "C02" -> {"modes"}
    [] g = "C04" -> {"planes"}
    [] g = "M01" -> {"sub"}
    [] g = "G02" -> {"grid"}
    [] g = "F01" -> {"ref", "rises"}
    [] g = "F02" -> {"helper"}
Dom(n) ==
  CASE n \in {"split", "turn", "mirror"} -> {<<a, b, q>> : a \in {2, 4, 6}, b \in {1, 3, 8}, q \in PointSet}
    [] n = "line" -> {<<a, q>> : a \in {1, 4, 9}, q \in PointSet}
    [] n = "delayed" -> {<<a, k, q>> : a \in {2, 8}, k \in {0, 1, 7}, q \in PointSet}
    [] n = "causal" -> {<<a, q>> : a \in {3, 8}, q \in PointSet}
    [] n = "closed" -> {<<a, b, q>> : a \in {6, 12}, b \in {10}, q \in {<<0, 0, 30>>, <<7, -4, 25>>, <<-13, 9, 41>>}}
    [] n = "meet" -> {<<m, F, x, y>> : m \in Mets, F \in {50, 300}, x \in {-20, 0, 13}, y \in {-30, 0, 7}}
    [] n = "far" -> {<<m, x, y>> : m \in Mets, x \in {-20, 0, 13}, y \in {-30, 0, 7}}
    [] n = "nofocus" -> {<<x, y>> : x \in {-20, 0, 13}, y \in {-30, 0, 7}}
    [] n = "focusoff" -> {<<a, q>> : a \in {2, 5}, q \in PointSet}
    [] n \in {"sphere", "cylinder"} -> {<<a, r>> : a \in {2, 7, 12}, r \in {-20, -4, 4, 50}}
    [] n = "flatcap" -> {<<a, q>> : a \in {2, 7}, q \in PointSet}
    [] n = "capfocus" -> {<<a, r>> : a \in {4, 9, 12}, r \in {4, 9, 15}}
    [] n \in {"fraction", "count"} -> {<<sg, a, b, q>> : sg \in {2, 9, 23, 40}, a \in {5, 9}, b \in {7, 16}, q \in PointSet}
    [] n = "disc" -> {<<sg, d, a>> : sg \in 1..16, d \in 1..16, a \in {5, 9}}
    [] n = "lossdc" -> {<<k, al, nt>> : k \in {0, 5, 11}, al \in {1, 400, 3000}, nt \in {12, 16, 21}}
    [] n = "loss0" -> {<<k, nt>> : k \in {0, 5, 11}, nt \in {12, 16, 21}}
    [] n = "lossweak" -> {<<k, al, nt>> : k \in {3, 9}, al \in {200, 900}, nt \in {32}}
    [] n = "lossadd" -> {<<k, j, al, nt>> : k \in {0, 7}, j \in {3, 7, 15}, al \in {200, 900}, nt \in {16, 17}}
    [] n = "windows" -> {<<a, k, q>> : a \in {2, 5}, k \in {1, 40, 45, 80, 199}, q \in PointSet}
    [] n = "early" -> {<<a, k, q>> : a \in {2, 5}, k \in {0, 30, 42, 120}, q \in PointSet}
    [] n = "edges" -> {<<a, q>> : a \in {2, 5}, q \in PointSet}
    [] n = "one" -> {<<q>> : q \in PointSet}
    [] n \in {"superpose", "weighted", "moved"} -> {<<d, q>> : d \in {1, 3, 6}, q \in PointSet}
    [] n = "reorder" -> {<<f, s, a, d, q>> : f \in {"off", "x", "xy"}, s \in {"off", "xy"}, a \in {"off", "hann", "triangle"}, d \in {2, 5}, q \in {<<7, -4, 25>>, <<22, 3, 60>>}}
    [] n = "helper" -> {<<L, p, F>> : L \in 1..6, p \in {1, 5}, F \in {3, 20, 90}}
    [] n = "steer" -> {<<L, p, th>> : L \in 2..5, p \in {1, 5}, th \in {-30, 0, 12, 60}}
    [] n = "window" -> {<<w, k, par>> : w \in {"triangle", "gauss", "raised", "hann", "hamming", "simply", "clamped"}, k \in 0..20, par \in {1, 2, 5}}
    [] n = "rings" -> {<<g, q>> : g \in {<<4>>, <<4, 5, 9>>, <<3, 6, 8, 10, 13>>}, q \in PointSet}
    [] n = "ringmeet" -> {<<g, F>> : g \in {<<4>>, <<4, 5, 9>>, <<3, 6, 8, 10, 13>>}, F \in {5, 30}}
    [] n \in {"saftadds", "diagonal"} -> {<<k, d, q, s>> : k \in 1..4, d \in {2, 5}, q \in {<<0, 0, 15>>, <<7, -4, 12>>, <<-13, 9, 10>>}, s \in {1, 2}}
    [] n \in {"reciprocal", "rcarec"} -> {<<IF n = "rcarec" THEN "rca" ELSE "tfm", k, m, d, q, s>> : k \in 1..3, m \in 1..4, d \in {2, 5}, q \in {<<0, 0, 15>>, <<7, -4, 12>>}, s \in {1}}
    [] n \in {"linedist", "rowdist"} -> {<<k, d, q>> : k \in 1..3, d \in {2, 5}, q \in PointSet}
    [] n \in {"conv", "modes"} -> {<<a, b, s>> : a \in {1, 2, 5, 9}, b \in {1, 3, 7}, s \in 1..3}
    [] n = "planes" -> {<<a, b, L, s>> : a \in {1, 4}, b \in {1, 3}, L \in 1..3, s \in 1..2}
    [] n = "sub" -> {<<r, c, r0, r1, c0, c1>> : r \in {1, 3}, c \in {1, 4}, r0 \in 1..3, r1 \in 1..3, c0 \in 1..3, c1 \in 1..4}
    [] n = "grid" -> {<<x, y, z>> : x \in 1..3, y \in {1, 2, 5}, z \in {1, 4}}
    [] n = "ref" -> {<<k>> : k \in 1..Len(SpeedRefs)}
    [] n = "rises" -> {<<T, S, p>> : T \in {0, 10, 25, 34}, S \in {33, 36, 40}, p \in {0, 100, 300}}
Holds(n, q) ==
  CASE n = "split" -> SplitRect(q[1], q[2], q[3])
    [] n = "turn" -> TurnRect(q[1], q[2], q[3])
    [] n = "mirror" -> MirrorRect(q[1], q[2], q[3])
    [] n = "line" -> LineIsRow(q[1], q[2])
    [] n = "delayed" -> Delayed(q[1], q[2], q[3])
    [] n = "causal" -> Causal(q[1], q[2])
    [] n = "closed" -> MeetsClosedForm(q[1], q[2], q[3])
    [] n = "meet" -> MeetAtFocus(q[1], q[2], q[3], q[4])
    [] n = "far" -> FarFocus(q[1], q[2], q[3])
    [] n = "nofocus" -> NoFocus(q[1], q[2])
    [] n = "focusoff" -> FocusOff(q[1], q[2])
    [] n = "sphere" -> OnSphere(q[1], q[2])
    [] n = "cylinder" -> OnCylinder(q[1], q[2])
    [] n = "flatcap" -> FlatCap(q[1], q[2])
    [] n = "capfocus" -> CapFocus(q[1], q[2])
    [] n = "fraction" -> FractionLaws(q[1], q[2], q[3], q[4])
    [] n = "count" -> CountRect(q[1], q[2], q[3], q[4])
    [] n = "disc" -> DiscLaws(q[1], q[2], q[3])
    [] n = "lossdc" -> LossKeepsDC(q[1], q[2], q[3])
    [] n = "loss0" -> LossVanishes(q[1], q[2])
    [] n = "lossweak" -> LossWeakens(q[1], q[2], q[3])
    [] n = "lossadd" -> LossAdds(q[1], q[2], q[3], q[4])
    [] n = "windows" -> Windows(q[1], q[2], q[3])
    [] n = "early" -> Early(q[1], q[2], q[3])
    [] n = "edges" -> Edges(q[1], q[2])
    [] n = "one" -> One1(q[1])
    [] n = "superpose" -> Superpose(q[1], q[2])
    [] n = "reorder" -> Reorder(q[1], q[2], q[3], q[4], q[5])
    [] n = "weighted" -> Weighted(q[1], q[2])
    [] n = "moved" -> Moved(q[1], q[2])
    [] n = "helper" -> HelperLaw(q[1], q[2], q[3])
    [] n = "steer" -> SteerLaws(q[1], q[2], q[3])
    [] n = "window" -> WindowLaws(q[1], q[2], q[3])
    [] n = "rings" -> AnnuRings(q[1], q[2])
    [] n = "ringmeet" -> AnnuMeet(q[1], q[2])
    [] n = "saftadds" -> SaftAdds(q[1], q[2], q[3], q[4])
    [] n = "diagonal" -> SaftIsDiagonal(q[1], q[2], q[3], q[4])
    [] n \in {"reciprocal", "rcarec"} -> Reciprocal(q[1], q[2], q[3], q[4], q[5], q[6])
    [] n = "linedist" -> LineDistance(q[1], q[2], q[3])
    [] n = "rowdist" -> RowDistance(q[1], q[2], q[3])
    [] n = "conv" -> ConvLaws(q[1], q[2], q[3])
    [] n = "modes" -> ModesCancel(q[1], q[2], q[3])
    [] n = "planes" -> SumPlanes(q[1], q[2], q[3], q[4])
    [] n = "sub" -> SubLaws(q[1], q[2], q[3], q[4], q[5], q[6])
    [] n = "grid" -> GridLaws(q[1], q[2], q[3])
    [] n = "ref" -> SpeedRef(q[1])
    [] n = "rises" -> SpeedRises(q[1], q[2], q[3])

(* two steps, so that TLC's workers share the evaluation: first the lemma, then its parameters *)
Init == st = <<"">>
Next == \/ st = <<"">> /\ \E n \in Names(Group) : st' = <<n>>
        \/ Len(st) = 1 /\ st[1] # "" /\ \E q \in Dom(st[1]) : st' = <<st[1], q>>
Spec == Init /\ [][Next]_st
Inv == Len(st) = 2 => Holds(st[1], st[2])
=============================================================================
