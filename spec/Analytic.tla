------------------------------ MODULE Analytic ------------------------------
(***************************************************************************)
(* Closed forms of the piston's spatial impulse response: v*cp times the   *)
(* fraction of the circle, of radius sqrt((cp t)^2 - z^2) around the       *)
(* projected observation point, that lies on the aperture.                 *)
(*   rect_sir(Ro, [a b], [dt nt], delay, [v cp] [, device])                *)
(*   circ_sir(Ro, r, [dt nt], delay, [v cp])                               *)
(*   scirc_sir(Ro, r, [dt nt], delay, [v cp], intervals)                   *)
(* Also dream_att (the stand-alone lossy pulse) and dream_apodwin.         *)
(***************************************************************************)
EXTENDS Api

AnalyticFns == {"rect_sir", "circ_sir", "scirc_sir"}
AuxFns == {"dream_att", "dream_apodwin"}

Near(a, b) == RLt(RAbs(RSub(a, b)), RMul(RQ(1, 10000000), RMax(RMax(RAbs(a), RAbs(b)), RQ(1, 1000))))
Clip1(x) == RMax(RNeg(One), RMin(One, x))

(* angle of the quarter circle of radius sg inside the rectangle [0,s] x [0,l] *)
QuarterAngle(sg, s, l) == RMax(Zero, RSub(RAsin(Clip1(RDiv(l, sg))), RAcos(Clip1(RDiv(s, sg)))))
Sign(x) == IF RLt(x, Zero) THEN RNeg(One) ELSE One
RectFraction(sg, x, y, a, b) ==
  LET sx == <<RSub(RDiv(a, Two), x), RAdd(RDiv(a, Two), x)>>
      sy == <<RSub(RDiv(b, Two), y), RAdd(RDiv(b, Two), y)>>
      q(i, j) == RMul(RMul(Sign(sx[i]), Sign(sy[j])), QuarterAngle(sg, RAbs(sx[i]), RAbs(sy[j])))
  IN RDiv(RAdd(RAdd(q(1,1), q(1,2)), RAdd(q(2,1), q(2,2))), TwoPi)
RectEdges(x, y, z, a, b) ==
  LET sx == <<RSub(RDiv(a, Two), x), RAdd(RDiv(a, Two), x)>>
      sy == <<RSub(RDiv(b, Two), y), RAdd(RDiv(b, Two), y)>>
  IN <<z>> \o [i \in 1..2 |-> Dist(<<sx[i], Zero, z>>)] \o [j \in 1..2 |-> Dist(<<Zero, sy[j], z>>)]
           \o [k \in 1..4 |-> Dist(<<sx[((k-1) \div 2) + 1], sy[((k-1) % 2) + 1], z>>)]

DiscFraction(sg, d, a) ==
  IF RLeq(sg, RSub(a, d)) THEN One
  ELSE IF RLeq(RAdd(a, d), sg) \/ RLeq(sg, RSub(d, a)) THEN Zero
  ELSE RDiv(RAcos(Clip1(RDiv(RSub(RAdd(Sq(sg), Sq(d)), Sq(a)), RMul(Two, RMul(sg, d))))), RPi)

(* one sample: [h, oob, amb, m]; ct = cp*t in mm *)
Sample(frac(_), z, ct, vc, edges) ==
  LET sg == RSqrt(RSub(Sq(ct), Sq(z))) IN
  [h |-> <<IF RLt(ct, z) THEN Zero ELSE RMul(vc, frac(sg))>>, m |-> RAbs(vc), oob |-> FALSE,
   amb |-> \E e \in 1..Len(edges) : Near(ct, edges[e])]

TimeAt(i, dt, delay) == RAdd(RMul(R(i-1), dt), delay)
PathAt(t, cp) == RDiv(RMul(cp, t), K1000)

RectBlocks(A) ==
  LET a == A[2].v[1]  b == A[2].v[2]  dt == A[3].v[1]  nt == RTrunc(A[3].v[2])  v == A[5].v[1]  cp == A[5].v[2]
      smp(n, i) == LET p == Row3(A[1], n) IN
        Sample(LAMBDA sg : RectFraction(sg, p[1], p[2], a, b), p[3], PathAt(TimeAt(i, dt, DelayOf(A[4], n)), cp), RMul(v, cp),
               RectEdges(p[1], p[2], p[3], a, b))
  IN [k \in 1..(nt * A[1].r) |-> smp(((k-1) \div nt) + 1, ((k-1) % nt) + 1)]

DiscEdges(d, z, a) == <<z, Dist(<<RSub(d, a), Zero, z>>), Dist(<<RAdd(d, a), Zero, z>>)>>
CircBlocks(A) ==
  LET a == A[2].v[1]  dt == A[3].v[1]  nt == RTrunc(A[3].v[2])  v == A[5].v[1]  cp == A[5].v[2]
      smp(n, i) == LET p == Row3(A[1], n)  d == RSqrt(RAdd(Sq(p[1]), Sq(p[2]))) IN
        Sample(LAMBDA sg : DiscFraction(sg, d, a), p[3], PathAt(TimeAt(i, dt, DelayOf(A[4], n)), cp), RMul(v, cp), DiscEdges(d, p[3], a))
  IN [k \in 1..(nt * A[1].r) |-> smp(((k-1) \div nt) + 1, ((k-1) % nt) + 1)]

(* mean of the closed form over one sampling interval; the arc part by the trapezoidal rule *)
Trapezoid(f(_), lo, hi, n) ==
  LET w == RDiv(RSub(hi, lo), R(n))
      y == TLCEval([j \in 0..n |-> f(RAdd(lo, RMul(R(j), w)))])
  IN RMul(w, RSum([j \in 1..n |-> RDiv(RAdd(y[j-1], y[j]), Two)]))
Overlap(a1, a2, b1, b2) == <<RMax(a1, b1), RMin(a2, b2)>>
ScircSample(p, a, dt, t, v, cp, n) ==
  LET d == RSqrt(RAdd(Sq(p[1]), Sq(p[2])))  z == p[3]
      lo == PathAt(RMax(Zero, RSub(t, RDiv(dt, Two))), cp)  hi == PathAt(RAdd(t, RDiv(dt, Two)), cp)
      e1 == Dist(<<RSub(d, a), Zero, z>>)  e2 == Dist(<<RAdd(d, a), Zero, z>>)
      flat == Overlap(lo, hi, z, e1)
      arc == Overlap(lo, hi, e1, e2)
      f(ct) == RDiv(RAcos(Clip1(RDiv(RSub(RAdd(RSub(Sq(ct), Sq(z)), Sq(d)), Sq(a)), RMul(Two, RMul(d, RSqrt(RMax(Zero, RSub(Sq(ct), Sq(z))))))))), RPi)
      len == RDiv(RMul(cp, dt), K1000)      \* the sampling interval as a path length
      part == RAdd(IF RLt(d, a) /\ RLt(flat[1], flat[2]) THEN RSub(flat[2], flat[1]) ELSE Zero,
                   IF RLt(arc[1], arc[2]) THEN Trapezoid(f, arc[1], arc[2], n) ELSE Zero)
      (* the arc's first angle is arccos 1: rounding of its argument, of relative size z / |d - a|, comes out magnified *)
      noise == RAdd(One, RDiv(z, RMax(RAbs(RSub(d, a)), RQ(1, 1000000))))
  IN [h |-> <<RDiv(RMul(RMul(v, cp), part), len)>>, m |-> RMul(noise, RAbs(RMul(v, cp))), oob |-> FALSE,
      amb |-> Near(d, a) \/ Near(lo, e1) \/ Near(hi, e1) \/ Near(lo, e2) \/ Near(hi, e2)]
ScircBlocks(A) ==
  LET a == A[2].v[1]  dt == A[3].v[1]  nt == RTrunc(A[3].v[2])  v == A[5].v[1]  cp == A[5].v[2]
      smp(n, i) == ScircSample(Row3(A[1], n), a, dt, TimeAt(i, dt, DelayOf(A[4], n)), v, cp, RTrunc(A[6].v[1]))
  IN [k \in 1..(nt * A[1].r) |-> smp(((k-1) \div nt) + 1, ((k-1) % nt) + 1)]

AnalyticCall(fn, A) ==
  [r |-> RTrunc(A[3].v[2]), c |-> A[1].r,
   blocks |-> CASE fn = "rect_sir" -> RectBlocks(A) [] fn = "circ_sir" -> CircBlocks(A) [] OTHER -> ScircBlocks(A),
   lvl |-> "none", tol |-> RQ(1, 10000000), inplace |-> FALSE]

(***************************************************************************)
(* dream_att(Ro, [dt nt], delay, [cp alpha]): the lossy pulse of a unit    *)
(* source at the origin, arriving in sample trunc((r/cp - delay)/dt + 1).  *)
(***************************************************************************)
AttBlock(A, n) ==
  LET dt == A[2].v[1]  nt == RTrunc(A[2].v[2])  cp == A[4].v[1]  alpha == A[4].v[2]
      r == Dist(Row3(A[1], n))
      u == RAdd(RDiv(RSub(RDiv(RMul(r, K1000), cp), DelayOf(A[3], n)), dt), One)
  IN [h |-> LossySum(<< <<RTrunc(u), One, r>> >>, dt, nt, alpha), oob |-> FALSE, amb |-> RLt(RTruncGap(u), GapTol)]
AttCall(A) == [r |-> RTrunc(A[2].v[2]), c |-> A[1].r, blocks |-> [n \in 1..A[1].r |-> AttBlock(A, n)],
               lvl |-> "none", tol |-> RQ(1, 100000000), inplace |-> FALSE]

(* dream_apodwin(method, n or weights, par): the window at |1 - 2 i/n|, i = 0..n-1 *)
ApodwinCall(A) ==
  LET met == A[1].s
      n == IF met = "ud" THEN Numel(A[2]) ELSE RTrunc(A[2].v[1])
      q(i) == RAbs(RMul(Two, RSub(Half, RDiv(R(i-1), R(n)))))
      w(i) == Weight(met, A[2].v, Num(A[3]), i, q(i), One)
  IN [r |-> n, c |-> 1, blocks |-> << [h |-> TLCEval([i \in 1..n |-> w(i)]), m |-> One, oob |-> FALSE, amb |-> FALSE] >>,
      lvl |-> "none", tol |-> RQ(1, 1000000000), inplace |-> FALSE]

AuxCall(fn, A) == IF fn = "dream_att" THEN AttCall(A) ELSE ApodwinCall(A)
=============================================================================
