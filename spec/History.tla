------------------------------- MODULE History -------------------------------
(* What a history of calls shows of the calls: each takes objects of a store   *)
(* and gives a result. A call is clean if it leaves the store as it was and if *)
(* it gives the same result whenever it is made with the same objects, no       *)
(* matter which calls were made before or in between.                           *)
EXTENDS Integers, Sequences, FiniteSets

(* the result of a call in the memory of the former calls; <<>> if none *)
Known(memo, c) == c \in DOMAIN memo
Agrees(memo, c, r) == Known(memo, c) => memo[c] = r
Learn(memo, c, r) == [x \in DOMAIN memo \cup {c} |-> IF x = c /\ ~Known(memo, c) THEN r ELSE memo[x]]

(* objects whose value differs after the call *)
Touched(before, after) == {o \in DOMAIN before : after[o] # before[o]}

(* schedules of calls: each call is made after each one, or right after each one *)
Follows(s, a, b) == \E i, j \in DOMAIN s : i < j /\ s[i] = a /\ s[j] = b
RightAfter(s, a, b) == \E i \in 1..(Len(s) - 1) : s[i] = a /\ s[i + 1] = b
Wide(s, calls) == \A a, b \in calls : Follows(s, a, b)
Tight(s, calls) == \A a, b \in calls : RightAfter(s, a, b)
(* calls named in the order in which they first occur *)
Canonical(s) == \A i \in DOMAIN s : s[i] = 1 \/ \E j \in 1..(i - 1) : s[j] = s[i] - 1 \/ s[j] = s[i]
=============================================================================
