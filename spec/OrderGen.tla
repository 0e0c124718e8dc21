------------------------------ MODULE OrderGen ------------------------------
(* Stage 3 of the relay: the plies between the surface plies are put down one *)
(* by one, any remaining ply that breaks nothing may come next. A laminate    *)
(* that gets finished is ordered; when the walk is stuck for every choice no  *)
(* order exists.                                                               *)
EXTENDS Relay, TLC, Json
CONSTANTS Cfg, N
C == Cfg
ASet == Range(C.angles)
A == Anchors(C)
F == IF C.sym THEN (N \div 2) - A ELSE N - 2 * A
VARIABLES start,  \* the laminate handed over
          queue,
          laid,   \* plies put down between the anchors
          left    \* plies still to be put down
vars == <<start, queue, laid, left>>
AscSeqs(k) == {s \in [1..k -> ASet] : \A i \in 1..(k - 1) : s[i] <= s[i + 1]}
SurfaceSets == IF C.dam_tol THEN IF A = 2 THEN {<<45, -45>>} ELSE {<<45>>}
               ELSE {<<0>>, <<45>>}
Begin(surf, mid, known, q) ==
  LET inner == known \o [i \in 1..Len(q) |-> Unknown] IN
  IF C.sym THEN surf \o inner \o mid \o RevSeq(surf \o inner)
  ELSE LET K == Len(known) \div 2 IN
       surf \o SubSeq(known, 1, K) \o [i \in 1..Len(q) |-> Unknown]
       \o SubSeq(known, K + 1, Len(known)) \o RevSeq(surf)
Mids == IF HasMiddle(C.sym, N) THEN {<<0>>, <<90>>} ELSE {<<>>}
Init == \E k \in 0..F, surf \in SurfaceSets, mid \in Mids :
          \E known \in [1..k -> ASet], q \in AscSeqs(F - k) :
            /\ start = Begin(surf, mid, known, q)
            /\ queue = q /\ laid = <<>>
            /\ left = FreePlies(C, start, q)
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Surf == SubSeq(start, 1, A)
Fine(l) == LET p == Surf \o l
               core == IF TwoPlyRule(C) THEN Tail(p) ELSE p
           IN /\ C.diso => Diso(core, C.delta)
              /\ C.contig => Contig(core, C.n_contig)
Lay(i) == /\ Fine(Append(laid, left[i]))
          /\ laid' = Append(laid, left[i])
          /\ left' = Del(left, i)
          /\ (left' = <<>> => Ordered(C, Arranged(C, start, laid')))
          /\ UNCHANGED <<start, queue>>
Next == \E i \in DOMAIN left : Lay(i)
Spec == Init /\ [][Next]_vars
SoundOrder == left = <<>> => Ordered(C, Arranged(C, start, laid)) \/ F = 0
(* a walk that cannot go on for lack of an order never began from a laminate  *)
(* that can be ordered with these first plies                                  *)
Exhausted ==
  (left # <<>> /\ ~ENABLED Next) =>
    ~\E f \in Arrangements(left) : Ordered(C, Arranged(C, start, laid \o f))
Emit == laid = <<>> => PrintT("GEN|" \o ToJson([ss |-> start, queue |-> queue]))
=============================================================================
