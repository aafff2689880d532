-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The documented call interface: how the positional arguments of every    *)
(* function determine its result.  An argument is a record                 *)
(*   [t |-> "D", r |-> rows, c |-> columns, v |-> column-major values]     *)
(*   [t |-> "S", s |-> string]                                             *)
(***************************************************************************)
EXTENDS Arrays

Num(a)       == a.v[1]
Int1(a)      == RTrunc(a.v[1])
At(a, i, j)  == a.v[(j-1) * a.r + i]
Numel(a)     == a.r * a.c
Row3(a, i)   == <<At(a, i, 1), At(a, i, 2), At(a, i, 3)>>
Dist(p)      == RSqrt(RAdd(RAdd(Sq(p[1]), Sq(p[2])), Sq(p[3])))   \* from the origin
Rows3(a)     == TLCEval([i \in 1..a.r |-> Row3(a, i)])
DelayOf(a, n) == IF Numel(a) = 1 THEN a.v[1] ELSE a.v[n]
StrOr(args, i, d) == IF Len(args) >= i THEN args[i].s ELSE d

Pars(sp, mp) == [dx |-> sp.v[1], dy |-> sp.v[2], dt |-> sp.v[3], nt |-> RTrunc(sp.v[4]),
                 v |-> mp.v[1], cp |-> mp.v[2], alpha |-> mp.v[3]]

SingleFns == {"dreamline", "dreamrect", "dreamcirc", "dreamcylind", "dreamsphere"}
FocusFns  == {"dreamrect_f", "dreamcirc_f"}
ArrayFns  == {"dream_arr_rect", "dream_arr_circ", "dream_arr_cylind"}
SirFns    == SingleFns \cup FocusFns \cup ArrayFns \cup {"dream_arr_annu"}

Surface(fn, g, p) ==
  CASE fn = "dreamline" -> LineSurf(g[1], p.dx, p.dy)
    [] fn \in {"dreamrect", "dreamrect_f", "dream_arr_rect"} -> RectSurf(g[1], g[2], p.dx, p.dy)
    [] fn \in {"dreamcirc", "dreamcirc_f", "dream_arr_circ"} -> CircSurf(g[1], p.dx, p.dy)
    [] fn \in {"dreamcylind", "dream_arr_cylind"} -> CylSurf(g[1], g[2], g[3], p.dx, p.dy)
    [] fn = "dreamsphere" -> SphereSurf(g[1], g[2], p.dx, p.dy)

(***************************************************************************)
(* Sir call -> [cols |-> one response per observation point, lvl |-> error *)
(* level].                                                                 *)
(***************************************************************************)
SingleCall(fn, A) ==
  LET p == TLCEval(Pars(A[3], A[5]))
      S == TLCEval(Surface(fn, A[2].v, p))
      pt(n) == LET c == Fold(Arrivals(S.els, Row3(A[1], n), LAMBDA e : Zero, DelayOf(A[4], n), One, p), p)
               IN TLCEval([c EXCEPT !.amb = @ \/ S.amb])
  IN [cols |-> [n \in 1..A[1].r |-> pt(n)], lvl |-> StrOr(A, 6, "stop"), nt |-> p.nt]

FocusCall(fn, A) ==
  LET p == TLCEval(Pars(A[3], A[5]))
      S == TLCEval(Surface(fn, A[2].v, p))
      hx == IF fn = "dreamrect_f" THEN A[2].v[1] ELSE A[2].v[1]
      hy == IF fn = "dreamrect_f" THEN A[2].v[2] ELSE A[2].v[1]
      hr == IF fn = "dreamrect_f" THEN RSqrt(RAdd(Sq(hx), Sq(hy))) ELSE A[2].v[1]
      FD == TLCEval([e \in 1..Len(S.els) |-> ApertureFocus(A[6].s, Num(A[7]), p.cp, hx, hy, hr, S.els[e][1], S.els[e][2])])
      pt(n) == LET c == Fold(Arrivals(S.els, Row3(A[1], n), LAMBDA e : FD[e], DelayOf(A[4], n), One, p), p)
               IN TLCEval([c EXCEPT !.amb = @ \/ S.amb])
  IN [cols |-> [n \in 1..A[1].r |-> pt(n)], lvl |-> StrOr(A, 8, "stop"), nt |-> p.nt]

ArrayCall(fn, A) ==
  LET p == TLCEval(Pars(A[4], A[6]))
      S == TLCEval(Surface(fn, A[2].v, p))
      G == Rows3(A[3])
      L == TLCEval([fmet |-> A[7].s, focal |-> A[8].v, smet |-> A[9].s, theta |-> A[10].v[1], phi |-> A[10].v[2],
            amet |-> A[11].s, apod |-> A[12].v, apar |-> Num(A[13])])
      pt(n) == LET c == Fold(ArrayArrivals(S.els, G, Row3(A[1], n), DelayOf(A[5], n), L, p), p)
               IN TLCEval([c EXCEPT !.amb = @ \/ S.amb])
  IN [cols |-> [n \in 1..A[1].r |-> pt(n)], lvl |-> StrOr(A, 14, "stop"), nt |-> p.nt]

AnnularCall(A) ==
  LET p == TLCEval(Pars(A[3], A[5]))
      Gr == A[2].v
      discs == TLCEval([j \in 1..Len(Gr) |-> CircSurf(Gr[j], p.dx, p.dy)])
      L == TLCEval([fmet |-> A[6].s, focal |-> A[7].v, amet |-> A[8].s, apod |-> A[9].v, apar |-> Num(A[10])])
  IN [cols |-> [n \in 1..A[1].r |-> AnnularPoint(Gr, discs, Row3(A[1], n), DelayOf(A[4], n), L, p)],
      lvl |-> StrOr(A, 11, "stop"), nt |-> p.nt]

SirCall(fn, A) ==
  CASE fn \in SingleFns -> SingleCall(fn, A)
    [] fn \in FocusFns  -> FocusCall(fn, A)
    [] fn \in ArrayFns  -> ArrayCall(fn, A)
    [] fn = "dream_arr_annu" -> AnnularCall(A)
=============================================================================
