----------------------------- MODULE TransferGen -----------------------------
(* A user draws a structure, writes the sheets in some order and starts a       *)
(* script, which may write the set-up it received for the next one. Histories   *)
(* are printed.                                                                 *)
EXTENDS Transfer, Json
CONSTANTS MaxPanels, Ids, MaxRuns, EmitCases
VARIABLES given, script, book, order, got, runs
vars == <<given, script, book, order, got, runs>>

Pairs(P) == {<<i, j>> \in (1..P) \X (1..P) : i < j}
SeqOfSet(S) == CHOOSE s \in [1..Cardinality(S) -> S] :
                 \A i, j \in DOMAIN s : i < j => s[i] < s[j]
NbrsOf(P, E, bo, i) ==
  SeqOfSet({Ids[j] : j \in {k \in 1..P : <<i, k>> \in E \/ (bo /\ <<k, i>> \in E)}})
(* structures whose panels do not hang together are refused when drawn *)
Meets(E, i, j) == i = j \/ <<i, j>> \in E \/ <<j, i>> \in E
Joined(P, E) == \A i, j \in 1..P : \E k \in 1..P : Meets(E, i, k) /\ Meets(E, k, j)
SetUps == UNION {{[rules |-> "rules", coefs |-> "coefs", mat |-> "mat",
             panels |-> [i \in 1..P |-> [id |-> Ids[i], nbrs |-> NbrsOf(P, E, bo, i),
                         n |-> 6 + 2 * i, w |-> i, tg |-> "targets", wt |-> "weightings",
                         lx |-> i, ly |-> 1, nx |-> 1, ny |-> i]]] :
             E \in {F \in SUBSET Pairs(P) : Joined(P, F)}, bo \in BOOLEAN} : P \in 1..MaxPanels}
Init == /\ given \in SetUps
        /\ script \in {"plain", "loaded"}
        /\ book = <<>> /\ order = <<>> /\ got = <<>> /\ runs = 0
Source == IF got = <<>> THEN given ELSE got[Len(got)]
Save(sh) == /\ sh \notin DOMAIN book
            /\ book' = (sh :> Held(Source, sh)) @@ book
            /\ order' = IF runs = 0 THEN Append(order, sh) ELSE order
            /\ UNCHANGED <<given, script, got, runs>>
(* the sheets of later runs are written in the same order as those of the first *)
SaveAgain == runs > 0 /\ LET k == Cardinality(DOMAIN book) IN
             k < 4 /\ Save(order[k + 1])
Start == /\ DOMAIN book = Sheets /\ runs < MaxRuns
         /\ got' = Append(got, Handed(script, book))
         /\ book' = <<>> /\ runs' = runs + 1
         /\ UNCHANGED <<given, script, order>>
Next == (runs = 0 /\ \E sh \in Sheets : Save(sh)) \/ SaveAgain \/ Start
Spec == Init /\ [][Next]_vars

(* every run is given what the user drew, whatever was written first *)
Arrived == \A k \in DOMAIN got : got[k] = Arrives(script, given)
(* sizes and loads get lost on the way only with scripts that do not ask *)
Complete == \A k \in DOMAIN got : script = "loaded" => got[k] = given
Linked == \A k \in DOMAIN got : \A i \in DOMAIN given.panels :
            got[k].panels[i].nbrs = given.panels[i].nbrs
Emit == (EmitCases /\ runs = MaxRuns /\ book = <<>>) =>
        PrintT("GEN|" \o ToJson([panels |-> [i \in DOMAIN given.panels |->
                 [id |-> given.panels[i].id, nbrs |-> given.panels[i].nbrs]],
               script |-> script, order |-> order, runs |-> MaxRuns]))
=============================================================================
