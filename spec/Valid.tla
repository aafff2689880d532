------------------------------- MODULE Valid -------------------------------
(***************************************************************************)
(* Which calls are malformed: wrong number of arguments or outputs, wrong  *)
(* shape, a non-numeric value where numbers are expected, a non-string or  *)
(* unknown word where a name is expected.                                  *)
(***************************************************************************)
EXTENDS Das, Conv, Analytic, SubMat, Helpers

IsNum(a) == a.t \in {"D", "F", "I", "B"}
IsStr(a) == a.t = "S"
IsArr(a) == IsNum(a) /\ "l" \notin DOMAIN a      \* not three-dimensional
Vec(a, n) == IsArr(a) /\ ((a.r = n /\ a.c = 1) \/ (a.r = 1 /\ a.c = n))
Scal(a) == IsArr(a) /\ a.r = 1 /\ a.c = 1
Count(a, n) == IsArr(a) /\ a.r * a.c = n
Points(a) == IsArr(a) /\ a.c = 3
Named(a, S) == IsStr(a) /\ a.s \in S
DelayOk(a, No) == IsArr(a) /\ (a.r * a.c = 1 \/ (a.r * a.c = No /\ (a.r = 1 \/ a.c = 1)))

Levels == {"ignore", "warn", "stop"}
FocusNames == {"off", "x", "y", "xy", "x+y", "on", "ud"}
SteerNames == {"off", "x", "y", "xy"}
ApodNames  == {"off", "ud", "triangle", "gauss", "raised", "hann", "hamming", "simply", "clamped"}
DasNames   == {"saft", "tfm", "rca", "rca_coltx", "rca_rowtx"}

GeometryLen(fn) == CASE fn \in {"dreamline", "dreamcirc", "dreamcirc_f", "dream_arr_circ"} -> 1
                     [] fn \in {"dreamrect", "dreamrect_f", "dream_arr_rect", "dreamsphere"} -> 2
                     [] OTHER -> 3

FocusOk(m, f, n) == Named(m, FocusNames) /\ (IF m.s = "ud" THEN Count(f, n) ELSE Count(f, 1))
SteerOk(m, s) == Named(m, SteerNames) /\ Vec(s, 2)
ApodOk(m, a, p, n) == Named(m, ApodNames) /\ IsArr(a) /\ (m.s = "ud" => Count(a, n)) /\ Scal(p)
LevelOk(A, i) == Len(A) < i \/ Named(A[i], Levels)

SirOk(fn, A) ==
  LET arr == fn \in ArrayFns
      base == IF arr THEN 4 ELSE 3 IN
  /\ Points(A[1])
  /\ (arr => Points(A[3]))
  /\ IF fn = "dream_arr_annu" THEN IsArr(A[2]) /\ IsVec(A[2]) /\ (A[2].r * A[2].c) % 2 = 1
     ELSE Vec(A[2], GeometryLen(fn))
  /\ Vec(A[base], 4)
  /\ DelayOk(A[base+1], A[1].r)
  /\ Vec(A[base+2], 3)
  /\ CASE fn \in SingleFns -> LevelOk(A, 6) /\ (Len(A) >= 7 => IsStr(A[7]))
       [] fn \in FocusFns -> FocusOk(A[6], A[7], 1) /\ LevelOk(A, 8)
       [] arr -> FocusOk(A[7], A[8], A[3].r) /\ SteerOk(A[9], A[10]) /\ ApodOk(A[11], A[12], A[13], A[3].r) /\ LevelOk(A, 14)
       [] OTHER -> LET n == (A[2].r * A[2].c + 1) \div 2
                   IN FocusOk(A[6], A[7], n) /\ ApodOk(A[8], A[9], A[10], n) /\ LevelOk(A, 11)

DasOk(fn, A) ==
  /\ \A i \in 1..7 : IsArr(A[i])
  (* Python: also an empty receive array has three columns *)
  /\ Points(A[2]) /\ ((A[3].r # 0 \/ (fn # "das" /\ ~ (IsStr(A[8]) /\ A[8].s = "saft"))) => Points(A[3])) /\ Points(A[4])
  /\ Scal(A[5]) /\ Scal(A[7]) /\ DelayOk(A[6], A[4].r)
  /\ Named(A[8], DasNames) /\ LevelOk(A, 9)
  /\ A[1].c = (IF DasMethod(A) = "saft" THEN A[2].r ELSE A[2].r * A[3].r)
  /\ (Len(A) >= 10 => Named(A[10], {"cpu", "gpu"}))
  /\ (Len(A) >= 11 => IsStr(A[11]))
  (* one precision for data, geometry and delays *)
  /\ (fn = "das" => \A i \in {2, 3, 4, 6} : A[i].t = A[1].t)

UniOk(A) ==
  /\ \A i \in 1..7 : IsArr(A[i])
  /\ Count(A[2], 3) /\ (A[3].r * A[3].c = 0 \/ Count(A[3], 3)) /\ A[4].r = 3 /\ A[4].c = 3
  /\ Scal(A[5]) /\ Scal(A[7]) /\ DelayOk(A[6], UniCount(A[4]))
  /\ Named(A[8], DasNames)
  /\ A[1].c = GridN(A[2].v) * (IF DasMethod(A) = "saft" THEN 1 ELSE GridN(A[3].v))
  /\ \A i \in 2..7 : A[i].t = A[1].t

(* what an in-place function can modify: a full double matrix, not a scalar *)
Writable(a) == a.t = "D" /\ "l" \notin DOMAIN a /\ ~ (a.r = 1 /\ a.c = 1)

Filled(a) == IsArr(a) /\ a.r >= 1 /\ a.c >= 1
ConvOk(fn, A, nout) ==
  LET rest == Rest(fn, A)
      inp == InPlace(fn, A)
      Y == rest[1]
      K == IF IsVec(A[2]) THEN A[2].r * A[2].c ELSE A[2].r
      tail == IF inp THEN Tail(rest) ELSE rest
      modes == fn # "sum_fftconv"
      wis == fn # "conv_p" IN
  /\ IF fn = "sum_fftconv" THEN /\ IsNum(A[1]) /\ "l" \in DOMAIN A[1] /\ A[1].r >= 1 /\ A[1].c >= 1
                                /\ Filled(A[2]) /\ A[2].c = A[1].l
     ELSE Filled(A[1]) /\ Filled(A[2]) /\ (IsVec(A[2]) \/ A[2].c = A[1].c)
  /\ (fn = "fftconv_ola" => Scal(A[3]) /\ ~ RLt(A[3].v[1], One) /\ ~ RLt(R(A[1].r), A[3].v[1]))
  /\ (inp => Writable(Y) /\ Y.r = A[1].r + (IF fn = "sum_fftconv" THEN A[2].r ELSE K) - 1 /\ Y.c = A[1].c)
  /\ CASE Len(tail) = 0 -> TRUE
       [] Len(tail) = 1 -> \/ (modes /\ inp /\ Named(tail[1], Modes))
                           \/ (wis /\ tail[1].t = "W")
       [] Len(tail) = 2 -> modes /\ wis /\ inp /\ Named(tail[1], Modes) /\ tail[2].t = "W"
       [] OTHER -> FALSE

SubOk(A) ==
  /\ Writable(A[1]) /\ Count(A[2], 2) /\ Count(A[3], 2) /\ IsArr(A[4])
  /\ LET r0 == RTrunc(A[2].v[1])  r1 == RTrunc(A[2].v[2])  c0 == RTrunc(A[3].v[1])  c1 == RTrunc(A[3].v[2]) IN
     /\ 1 <= r0 /\ r0 <= r1 /\ r1 <= A[1].r
     /\ 1 <= c0 /\ c0 <= c1 /\ c1 <= A[1].c
     /\ A[4].r >= r1 - r0 + 1 /\ A[4].c = c1 - c0 + 1

(* dt, nt and cp, for functions without spatial sampling *)
AnalyticOk(fn, A) ==
  /\ Points(A[1]) /\ Vec(A[2], IF fn = "rect_sir" THEN 2 ELSE 1) /\ Vec(A[3], 2) /\ DelayOk(A[4], A[1].r) /\ Vec(A[5], 2)
  /\ (fn = "rect_sir" /\ Len(A) >= 6 => IsStr(A[6]))
  /\ (fn = "scirc_sir" => Scal(A[6]) /\ ~ RLt(A[6].v[1], One))
AuxOk(fn, A) ==
  IF fn = "dream_att" THEN Points(A[1]) /\ Vec(A[2], 2) /\ DelayOk(A[3], A[1].r) /\ Vec(A[4], 2)
  ELSE /\ Named(A[1], ApodNames) /\ IsArr(A[2]) /\ Scal(A[3])
       /\ (A[1].s # "ud" => Scal(A[2]) /\ ~ RLt(A[2].v[1], One))

ArgCount(fn) ==
  CASE fn \in {"dreamline", "dreamcylind", "dreamsphere"} -> <<5, 6>>
    [] fn \in {"dreamrect", "dreamcirc"} -> <<5, 7>>
    [] fn \in FocusFns -> <<7, 8>>
    [] fn \in ArrayFns -> <<13, 14>>
    [] fn = "dream_arr_annu" -> <<10, 11>>
    [] fn \in DasFns -> <<8, 11>>
    [] fn \in UniFns -> <<8, 8>>
    [] fn = "conv_p" -> <<2, 4>>
    [] fn = "fftconv_p" -> <<2, 5>>
    [] fn = "fftconv_p:fftconv_p" -> <<2, 2>>
    [] fn = "fftconv_ola" -> <<3, 6>>
    [] fn = "sum_fftconv" -> <<2, 4>>
    [] fn \in SubFns -> <<4, 4>>
    [] fn = "rect_sir" -> <<5, 6>>
    [] fn = "circ_sir" -> <<5, 5>>
    [] fn = "scirc_sir" -> <<6, 6>>
    [] fn = "dream_att" -> <<4, 4>>
    [] fn = "dream_apodwin" -> <<3, 3>>
(* Python takes every parameter up to the error level *)
PyMin(fn) == CASE fn \in SingleFns -> 6 [] fn \in FocusFns -> 8 [] fn \in ArrayFns -> 14 [] fn = "dream_arr_annu" -> 11 [] fn \in DasFns -> 10 [] OTHER -> 2
MinArgs(rec) == IF rec.api = "py" THEN PyMin(rec.fn)
                ELSE IF rec.api = "jl" THEN (IF rec.fn \in DasFns THEN 11 ELSE PyMin(rec.fn)) ELSE ArgCount(rec.fn)[1]
(* the device argument of dreamrect and dreamcirc exists in Octave only *)
MaxArgs(rec) == IF rec.api = "jl" THEN MinArgs(rec) ELSE IF rec.api = "py" /\ rec.fn \in {"dreamrect", "dreamcirc"} THEN 6 ELSE ArgCount(rec.fn)[2]
MaxOut(fn) == CASE fn \in SubFns -> 0
                [] fn \in {"conv_p", "dream_att", "dream_apodwin", "das_uni"} \cup AnalyticFns -> 1
                [] OTHER -> 2

(* MATLAB: numbers are not converted; only scalars that are read alone may be of any class *)
AnyClass(rec) ==
  LET fn == rec.fn IN
  CASE fn \in FocusFns -> {7}
    [] fn \in ArrayFns -> (IF rec.args[7].s = "ud" THEN {} ELSE {8}) \cup {13} \cup (IF rec.args[11].s = "ud" THEN {} ELSE {12})
    [] fn = "dream_arr_annu" -> (IF rec.args[6].s = "ud" THEN {} ELSE {7}) \cup {10} \cup (IF rec.args[8].s = "ud" THEN {} ELSE {9})
    [] fn \in DasFns -> 1..11
    [] fn = "fftconv_ola" -> {3}
    [] fn = "scirc_sir" -> {6}
    [] fn = "dream_apodwin" -> {3} \cup (IF rec.args[1].s = "ud" THEN {} ELSE {2})
    [] OTHER -> {}
Unconverted(rec) == \E i \in 1..Len(rec.args) : IsNum(rec.args[i]) /\ rec.args[i].t # "D" /\ i \notin AnyClass(rec)

Malformed(rec) ==
  LET A == rec.args  fn == rec.fn IN
  fn \notin HelperFns /\   (* scripts: nothing is promised about their rejections *)
  (
  \/ Len(A) < MinArgs(rec) \/ Len(A) > MaxArgs(rec)
  \/ (rec.api \in {"oct", "mex"} /\ rec.nout > MaxOut(fn))
  \/ ~ (CASE fn \in SirFns -> SirOk(fn, A)
          [] fn \in DasFns -> DasOk(fn, A)
          [] fn \in UniFns -> UniOk(A)
          [] fn \in ConvFns -> ConvOk(fn, A, rec.nout)
          [] fn \in SubFns -> SubOk(A)
          [] fn \in AnalyticFns -> AnalyticOk(fn, A)
          [] fn \in AuxFns -> AuxOk(fn, A))
  \/ (rec.api = "mex" /\ Unconverted(rec))
  )

Lossy(rec) == LET A == rec.args  i == IF rec.fn \in ArrayFns THEN 6 ELSE 5
              IN Len(A) >= i /\ Vec(A[i], 3) /\ ~ Lossless(A[i].v[3])
=============================================================================
