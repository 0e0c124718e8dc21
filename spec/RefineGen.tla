----------------------------- MODULE RefineGen ------------------------------
(* Stage 2 as a state machine: any admissible change of one ply or one pair   *)
(* of plies may happen, in any order. What stage 1 hands over stays intact.   *)
EXTENDS Refine, TLC, Json
CONSTANTS Cfg, N, PA, EmitCases
C == Cfg
ASet == Range(C.angles)
VARIABLES ss, queue, start
vars == <<ss, queue, start>>
S == Slots(C.sym, N)

(* laminates with the innermost K slots open, rules met on counts *)
Laminates ==
  {s \in [1..N -> ASet] : C.sym => \A i \in 1..N : s[i] = s[N + 1 - i]}
Opened(s, k) ==
  LET U == Positions(C.sym, N, k + 1..S)
  IN [i \in 1..N |-> IF i \in U THEN Unknown ELSE s[i]]
QueueOf(s, k) == SortSeq([i \in 1..(S - k) |-> s[SlotPos(C.sym, N, k + i)]],
                         LAMBDA a, b : a < b)
Init == \E s \in Laminates, k \in {S - 2, S} :
          /\ HasMiddle(C.sym, N) => s[Middle(N)] \in {0, 90}
          /\ DamTol(s, C)
          /\ TenMet(C, s, <<>>) /\ BalMet(C, s, <<>>)
          /\ ss = Opened(s, k) /\ queue = QueueOf(s, k)
          /\ start = <<Opened(s, k), QueueOf(s, k)>>
(* replace in the queue if the orientation is there, else innermost ply *)
RemoveOne(q, a) == LET i == CHOOSE i \in DOMAIN q : q[i] = a IN RemoveAt(q, i)
One(s, q, a, b) ==
  IF Count(q, a) > 0
  THEN <<s, SortSeq(Append(RemoveOne(q, a), b), LAMBDA x, y : x < y)>>
  ELSE LET R == {i \in Region(C, N, PA) : s[i] = a}
           i == CHOOSE i \in R : \A j \in R : Depth(N, j) >= Depth(N, i)
       IN <<IF C.sym THEN [s EXCEPT ![i] = b, ![N + 1 - i] = b]
            ELSE [s EXCEPT ![i] = b], q>>
Change(m) ==
  /\ Available(C, ss, queue, PA, m)
  /\ TenAfter(C, ss, queue, m)
  /\ LET x == One(ss, queue, m[1][1], m[2][1])
         y == IF Len(m[1]) = 1 THEN x ELSE One(x[1], x[2], m[1][2], m[2][2])
     IN ss' = y[1] /\ queue' = y[2] /\ UNCHANGED start
Next == \E m \in (Moves(C) \cup Swaps(C)) : Change(m)
Spec == Init /\ [][Next]_vars

Kept == Handover(C, ss, queue) /\ TenMet(C, ss, queue) /\ BalMet(C, ss, queue)
OuterIntact == \A i \in 1..N : (i \notin Region(C, N, PA) /\ ~C.sym)
                                 => ss[i] = start[1][i]
SurfaceIntact == \A i \in 1..OuterFixed(C, N, PA) :
                   ss[i] = start[1][i] /\ ss[N + 1 - i] = start[1][N + 1 - i]
(* a completed laminate still obeys damage tolerance *)
DamTolKept == Unknown \notin Range(ss) => DamTol(ss, C)
Moved == [][\E m \in (Moves(C) \cup Swaps(C)) : IsMove(C, ss, queue, ss', queue', m)]_vars
Emit == EmitCases /\ <<ss, queue>> = start =>
          PrintT("GEN|" \o ToJson([ss |-> ss, queue |-> queue]))
=============================================================================
