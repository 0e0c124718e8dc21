------------------------------ MODULE HistoryGen ------------------------------
(* Three calls on objects of their own and an object they share, one of them    *)
(* possibly faulty: it changes its object, or the object shared, or it leaves    *)
(* something behind that alters the result of later calls (its own, or another   *)
(* one's), for good ("leak") or until the next call only ("slip"), or it alters a  *)
(* result that was given before and is still in use ("held"). The results          *)
(* of the calls made alone are known. Wide schedules show every lasting fault,    *)
(* tight ones show all, and none show a fault where there is none.                *)
EXTENDS History, TLC, Json
CONSTANTS N, MaxLen, EmitCases
Calls == 1..N
Faults == {<<"none", 1, 1>>} \cup {<<f, a, a>> : f \in {"own", "shared"}, a \in Calls}
          \cup {<<f, a, b>> : f \in {"leak", "slip", "held"}, a, b \in Calls}
VARIABLES fault, store, given, left, memo, sched, shown
vars == <<fault, store, given, left, memo, sched, shown>>
Alone == [c \in Calls |-> <<c, 0, 0, FALSE>>]
Init == /\ fault \in Faults
        /\ store = [o \in 0..N |-> 0]
        /\ given = [c \in {} |-> 0]
        /\ left = FALSE /\ memo = Alone /\ sched = <<>> /\ shown = FALSE

Is(f, c) == fault[1] = f /\ fault[2] = c
Kept(c) == [store EXCEPT ![c] = IF Is("own", c) THEN @ + 1 ELSE @,
                         ![0] = IF Is("shared", c) THEN @ + 1 ELSE @]
(* the results in use after a call, which adds its own *)
InUse(c) == [x \in DOMAIN given \cup {c} |-> IF x \notin DOMAIN given THEN 0
             ELSE IF Is("held", c) /\ fault[3] = x THEN given[x] + 1 ELSE given[x]]
Result(c) == <<c, store[c], store[0], left /\ fault[3] = c>>
Make(c) == /\ Len(sched) < MaxLen /\ ~shown
           /\ sched' = Append(sched, c) /\ Canonical(sched') = TRUE
           /\ store' = Kept(c)
           /\ given' = InUse(c)
           /\ left' = (Is("leak", c) \/ Is("slip", c) \/ (left /\ fault[1] = "leak"))
           /\ memo' = Learn(memo, c, Result(c))
           /\ shown' = (~Agrees(memo, c, Result(c)) \/ Touched(store, Kept(c)) # {}
                       \/ Touched(given, InUse(c)) # {})
           /\ UNCHANGED fault
Next == \E c \in Calls : Make(c)
Spec == Init /\ [][Next]_vars

NoFalseAlarm == fault[1] = "none" => ~shown
WideReveals == (Wide(sched, Calls) /\ fault[1] \notin {"none", "slip"}) => shown
TightReveals == (Tight(sched, Calls) /\ fault[1] # "none") => shown
Emit == (EmitCases /\ fault[1] = "none"
         /\ (Tight(sched, Calls) \/ (Len(sched) = 6 /\ Wide(sched, Calls)))) =>
        PrintT("GEN|" \o ToJson([calls |-> sched]))
=============================================================================
