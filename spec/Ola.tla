-------------------------------- MODULE Ola --------------------------------
(***************************************************************************)
(* Overlap-add: how a column is convolved block by block, and why the      *)
(* result is the convolution whatever the block length.  A column of M     *)
(* samples is cut into blocks of Blk (the last is padded with zeros); each *)
(* block's convolution with the K taps is added to (or, mode "-=",         *)
(* subtracted from) the output where the block starts; mode "=" clears the *)
(* output first.  A stop request is honoured between two blocks.           *)
(*                                                                         *)
(* TLC runs the algorithm on every shape and mode over the integers and    *)
(* checks Inv in every state; the shapes (printed as words) are replayed   *)
(* on the real function.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxM, MaxK, Words

VARIABLES M, K, Blk, mode, off, y, old, stopped
vars == <<M, K, Blk, mode, off, y, old, stopped>>

Modes == {"new", "=", "+=", "-="}
A(i) == 1 + ((i * i * 7 + 3 * i) % 11)            \* samples 0..M-1
B(j) == 1 + ((j * j * 5 + j) % 7) * 20            \* taps 0..K-1
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n < 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
(* sample t of the convolution of A[lo..hi-1] with B, at its place in the whole *)
Part(lo, hi, t) == SumTo(LAMBDA j : IF t - j >= lo /\ t - j < hi THEN A(t - j) * B(j) ELSE 0, K - 1)
Sign == IF mode = "-=" THEN -1 ELSE 1
Min(a, b) == IF a < b THEN a ELSE b
Out == 0..(M + K - 2)

Init == /\ M \in 1..MaxM /\ K \in 1..MaxK /\ Blk \in 1..MaxM /\ Blk <= M /\ mode \in Modes
        /\ off = 0 /\ stopped = FALSE
        /\ old = [t \in Out |-> IF mode = "new" THEN 0 ELSE 1000 + t]
        /\ y = IF mode = "=" THEN [t \in Out |-> 0] ELSE old
(* the block, padded to Blk samples, has Blk + K - 1 output samples; those past the end are zero and not stored *)
BlockSample(i) == IF off + i < M THEN A(off + i) ELSE 0
BlockConv(u) == SumTo(LAMBDA j : IF u - j >= 0 /\ u - j < Blk THEN BlockSample(u - j) * B(j) ELSE 0, K - 1)
Block == /\ off < M /\ ~ stopped
         /\ y' = [t \in Out |-> IF t >= off /\ t < off + Blk + K - 1 THEN y[t] + Sign * BlockConv(t - off) ELSE y[t]]
         /\ off' = off + Blk
         /\ (off + Blk >= M /\ Words => PrintT("WORD|" \o ToString(<<M, K, Blk>>) \o mode))
         /\ UNCHANGED <<M, K, Blk, mode, old, stopped>>
Stop == /\ off > 0 /\ off < M /\ ~ stopped /\ ~ Words /\ stopped' = TRUE /\ UNCHANGED <<M, K, Blk, mode, off, y, old>>
Next == Block \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Block)

Start(t) == IF mode \in {"=", "new"} THEN 0 ELSE old[t]
(* after the blocks before off: the convolution of the samples before off *)
Progress == \A t \in Out : y[t] = Start(t) + Sign * Part(0, Min(off, M), t)
(* what is padded does not matter, and nothing reaches past the output *)
Beyond == \A u \in 0..(Blk + K - 2) : off < M /\ off + u > M + K - 2 => BlockConv(u) = 0
(* C03: the end is the whole convolution; a stopped column never is *)
Done == off >= M => \A t \in Out : y[t] = Start(t) + Sign * Part(0, M, t)
Partial == stopped => \E t \in Out : y[t] # Start(t) + Sign * Part(0, M, t)
Inv == Progress /\ Beyond /\ Done /\ Partial
Ends == <>(off >= M \/ stopped)
=============================================================================
