------------------------------- MODULE PdlStore ------------------------------
(* The search for K ply-drop layouts: layouts are sampled one after the      *)
(* other; those without spacing violation are kept in order of discovery,    *)
(* the K best of the others are kept in reserve and fill the missing places  *)
(* when the time is over. Layouts are abstract; Pen gives their penalty.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS N, K, MaxPen, MaxTime
Layouts == 1..N
VARIABLES pen, perfect, reserve, seen, clock, done, result
vars == <<pen, perfect, reserve, seen, clock, done, result>>
Elems(s) == {s[i] : i \in DOMAIN s}

Init == /\ pen \in [Layouts -> 0..MaxPen]
        /\ perfect = <<>> /\ reserve = {} /\ seen = {} /\ clock = 0
        /\ done = FALSE /\ result = <<>>
Worst(S) == CHOOSE x \in S : \A y \in S : pen[x] >= pen[y]
Sample(x) ==
  /\ ~done /\ Len(perfect) < K /\ clock < MaxTime
  /\ clock' = clock + 1
  /\ seen' = seen \cup {x}
  /\ IF pen[x] = 0
     THEN /\ perfect' = IF x \in Elems(perfect) THEN perfect ELSE Append(perfect, x)
          /\ UNCHANGED reserve
     ELSE /\ UNCHANGED perfect
          /\ reserve' = IF x \in reserve THEN reserve
                        ELSE IF Cardinality(reserve) < K THEN reserve \cup {x}
                        ELSE IF pen[x] < pen[Worst(reserve)]
                             THEN (reserve \ {Worst(reserve)}) \cup {x}
                             ELSE reserve
  /\ UNCHANGED <<pen, done, result>>
RECURSIVE ByPenalty(_)
ByPenalty(S) == IF S = {} THEN <<>> ELSE
  LET b == CHOOSE x \in S : \A y \in S : pen[x] <= pen[y]
  IN <<b>> \o ByPenalty(S \ {b})
Finish ==
  /\ ~done /\ (Len(perfect) = K \/ clock = MaxTime)
  /\ done' = TRUE
  /\ LET fill == ByPenalty(reserve)
         m == K - Len(perfect)
     IN result' = perfect \o SubSeq(fill, 1, IF m < Len(fill) THEN m ELSE Len(fill))
  /\ UNCHANGED <<pen, perfect, reserve, seen, clock>>
Next == Finish \/ \E x \in Layouts : Sample(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the reserve holds the K best imperfect layouts seen so far *)
ReserveBest == \A x \in seen \ reserve : pen[x] = 0 \/
                 (Cardinality(reserve) = K /\ \A y \in reserve : pen[y] <= pen[x])
NoDuplicate == \A i, j \in DOMAIN perfect : i # j => perfect[i] # perfect[j]
ResultDistinct == \A i, j \in DOMAIN result : i # j => result[i] # result[j]
ResultSorted == \A i \in 1..(Len(result) - 1) : pen[result[i]] <= pen[result[i + 1]]
ResultBest == done => \A x \in seen \ Elems(result) :
                Len(result) = K /\ \A y \in Elems(result) : pen[y] <= pen[x]
ResultFull == done => Len(result) = IF Cardinality(seen) < K THEN Cardinality(seen) ELSE K
Ends == <>done
=============================================================================
