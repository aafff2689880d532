----------------------------- MODULE Histories -----------------------------
(***************************************************************************)
(* Histories of abstract operations, enumerated completely by TLC and      *)
(* replayed (made concrete with seeded data) on the real bindings.  The    *)
(* model also states, for each kind, why the history matters: what an      *)
(* implementation may remember (memo) and the invariant that makes         *)
(* remembering harmless.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, N
VARIABLES word, memo

(* ---- das: a beamformer object is kept and reused when the setup is unchanged *)
DasSetups == [met : {"saft", "tfm", "rca_coltx", "rca_rowtx"}, prec : {"D", "F"}, k : {0, 1}, no : {0, 1}, nt : {0, 1}, nr : {0, 1}, kind : {"ok", "oob", "warn", "bad"}]
Sizes(x) == <<x.met, x.k, x.no, x.nt, x.nr>>
Diff(x, y) == (IF x.met # y.met THEN 1 ELSE 0) + (IF x.prec # y.prec THEN 1 ELSE 0) + (IF x.k # y.k THEN 1 ELSE 0)
            + (IF x.no # y.no THEN 1 ELSE 0) + (IF x.nt # y.nt THEN 1 ELSE 0) + (IF x.nr # y.nr THEN 1 ELSE 0)
Bit(b) == IF b = 0 THEN "0" ELSE "1"
DasName(x) == x.met \o "/" \o x.prec \o "/" \o Bit(x.k) \o "/" \o Bit(x.no) \o "/" \o Bit(x.nt) \o "/" \o Bit(x.nr) \o "/" \o x.kind
None == [none |-> TRUE]
DasNext(x) ==
  (* changes of at most one feature, of method and one size, or of everything *)
  /\ (word = << >> => x.k = 0 /\ x.no = 0)
  /\ (word # << >> => LET p == memo.last IN Diff(p, x) <= 1 \/ (p.met # x.met /\ Diff(p, x) = 2) \/ Diff(p, x) = 6)
  /\ memo' = [last |-> x,
              (* the kept objects, per precision: a change of setup replaces it, a change of precision drops the other *)
              obj |-> IF x.kind = "bad" THEN memo.obj ELSE [p |-> x.prec, s |-> Sizes(x)],
              used |-> IF x.kind = "bad" THEN None
                       ELSE IF memo.obj # None /\ memo.obj.p = x.prec /\ memo.obj.s = Sizes(x) THEN memo.obj
                       ELSE [p |-> x.prec, s |-> Sizes(x)]]
  /\ word' = Append(word, DasName(x))

(* ---- wisdom: W holds the wisdom the last get returned *)
WisdomOps == {"get", "use", "inplace", "plain", "bad"}
WisdomNext(o, d) ==
  /\ o \in {"use", "inplace"} => memo # None
  /\ memo' = IF o = "get" THEN [size |-> d] ELSE memo
  /\ word' = Append(word, o \o "/" \o Bit(d))

(* ---- valid: accepted and rejected calls *)
ValidNext(o) == memo' = None /\ word' = Append(word, o) /\ (Len(word) = N - 1 => o = "ok" /\ \E i \in 1..Len(word) : word[i] = "bad")

(* ---- deform: every argument position (0: the argument and output counts) in every wrong form *)
Shapes == {"more", "less", "more1", "less1", "empty", "emptyrow", "col", "row", "mat", "turn", "cell", "struct", "nd", "text",
           "bogus", "longer", "shorter", "upper", "number"}
Counts == {"none", "half", "last2", "last", "extra", "extra2", "outputs"}
Deforms == {<<0, k>> : k \in Counts} \cup ((1..14) \X Shapes)
DeformNext(d) == memo' = None /\ word' = Append(word, ToString(d[1]) \o "/" \o d[2])

(* ---- pure: x repeated, other calls between *)
PureNext(o) == memo' = None /\ word' = Append(word, o) /\ (word = << >> => o = "x") /\ (Len(word) = N - 1 => o = "x")

Init == word = << >> /\ memo = IF Kind = "das" THEN [last |-> None, obj |-> None, used |-> None] ELSE None
Next == /\ Len(word) < N
        /\ CASE Kind = "das" -> \E x \in DasSetups : DasNext(x)
             [] Kind = "wisdom" -> \E o \in WisdomOps, d \in {0, 1} : WisdomNext(o, d)
             [] Kind = "valid" -> \E o \in {"ok", "bad"} : ValidNext(o)
             [] Kind = "deform" -> \E d \in Deforms : DeformNext(d)
             [] Kind = "pure" -> \E o \in {"x", "y", "z"} : PureNext(o)
        /\ (Len(word') = N => PrintT("WORD|" \o ToString(word')))
Spec == Init /\ [][Next]_<<word, memo>>

(* reuse refines a fresh object: a call computes with an object of its own precision and setup *)
Inv == Kind = "das" => (memo.used # None => memo.used.p = memo.last.prec /\ memo.used.s = Sizes(memo.last))
=============================================================================
