------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* The helper functions of the toolbox:                                    *)
(*   h2o_soundspeed(T [, P [, unit [, S]]])                                *)
(*     sound speed of (sea) water at temperature T [C], pressure P and     *)
(*     salinity S [ppt] by Del Grosso's equation (JASA 56(4), 1974)        *)
(*   arr_focus_delays(gx, cp, foc, ang)                                    *)
(*     focusing delays of a linear array: with its delay every element's   *)
(*     wave reaches the focal point at the same time, and the least delay  *)
(*     is zero; a negative depth is a virtual source behind the array,     *)
(*     from which every element is reached at the time it fires            *)
(***************************************************************************)
EXTENDS Api

HelperFns == {"h2o_soundspeed", "arr_focus_delays"}

RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN One ELSE RMul(x, RPow(x, n - 1))

(* coefficient, and the powers of temperature, salinity and pressure [kg/cm^2] *)
DelGrosso == <<
  <<"1402.392", 0, 0, 0>>,
  <<"5.01109398873", 1, 0, 0>>, <<"-0.0550946843172", 2, 0, 0>>, <<"2.21535969240E-4", 3, 0, 0>>,
  <<"1.32952290781", 0, 1, 0>>, <<"1.28955756844E-4", 0, 2, 0>>,
  <<"0.156059257041", 0, 0, 1>>, <<"2.44998688441E-5", 0, 0, 2>>, <<"-8.83392332513E-9", 0, 0, 3>>,
  <<"-0.0127562783426", 1, 1, 0>>, <<"9.68403156410E-5", 2, 1, 0>>,
  <<"0.00635191613389", 1, 0, 1>>, <<"2.65484716608E-8", 2, 0, 2>>, <<"-1.59349479045E-6", 1, 0, 2>>,
  <<"5.22116437235E-10", 1, 0, 3>>, <<"-4.38031096213E-7", 3, 0, 1>>,
  <<"-1.61674495909E-9", 0, 2, 2>>, <<"4.85639620015E-6", 1, 2, 1>>, <<"-3.40597039004E-4", 1, 1, 1>> >>
SoundSpeed(T, S, P) == RSum([k \in 1..Len(DelGrosso) |-> LET q == DelGrosso[k] IN RMul(RMul(q[1], RPow(T, q[2])), RMul(RPow(S, q[3]), RPow(P, q[4])))])
(* one unit in technical atmospheres [kg/cm^2], as tabulated; Pascal when the unit is unknown *)
UnitAt(u) == CASE u \in {"bar", "BAR", "Bar"} -> "1.0197"
               [] u \in {"at", "AT", "At"} -> "1"
               [] u \in {"atm", "ATM", "Atm"} -> "1.0332"
               [] u \in {"mmHg", "MMHG", "mmhg"} -> "1.3595E-3"
               [] u \in {"psi", "PSI", "Psi"} -> "0.070307"
               [] OTHER -> "1.0197E-5"
SpeedCall(A) ==
  LET n == Len(A)
      big == CHOOSE i \in {j \in {1, 2, 4} : j <= n} : \A j \in {1, 2, 4} : j <= n => Numel(A[j]) <= Numel(A[i])
      el(i, d, k) == IF n < i THEN d ELSE IF Numel(A[i]) = 1 THEN A[i].v[1] ELSE A[i].v[k]
      unit == IF n >= 3 THEN A[3].s ELSE "Pa"
      val(k) == [h |-> <<SoundSpeed(el(1, Zero, k), el(4, Zero, k), RMul(el(2, R(101325), k), UnitAt(unit)))>>, oob |-> FALSE, amb |-> FALSE]
  IN [r |-> A[big].r, c |-> A[big].c, blocks |-> [k \in 1..Numel(A[big]) |-> val(k)], lvl |-> "none", tol |-> RQ(1, 1000000000), inplace |-> FALSE]

DelaysCall(A) ==
  LET gx == A[1].v  cp == Num(A[2])  foc == Num(A[3])  th == RMul(Num(A[4]), RDiv(RPi, R(180)))
      x == RMul(foc, RDiv(RSin(th), RCos(th)))
      d == TLCEval([n \in 1..Len(gx) |-> Hyp(RSub(x, gx[n]), foc)])
      far == MaxOf(d)
      near == RSub(far, MaxOf([n \in 1..Len(gx) |-> RSub(far, d[n])]))
      t(n) == PathDelay(IF RLt(foc, Zero) THEN RSub(d[n], near) ELSE RSub(far, d[n]), cp)
  IN [r |-> Len(gx), c |-> 1, lvl |-> "none", tol |-> RQ(1, 1000000000), inplace |-> FALSE,
      (* one block: rounding errors are relative to the paths *)
      blocks |-> <<[h |-> TLCEval([n \in 1..Len(gx) |-> t(n)]), m |-> PathDelay(far, cp), oob |-> FALSE, amb |-> FALSE]>>]

HelperCall(fn, A) == IF fn = "h2o_soundspeed" THEN SpeedCall(A) ELSE DelaysCall(A)
=============================================================================
