------------------------------ MODULE StripGen -------------------------------
(* Structures grow panel by panel and boundary by boundary; each reachable   *)
(* connected structure is a case for the implementation. The invariants      *)
(* state what the mapping to a blending strip preserves.                     *)
EXTENDS Blending, TLC, Json
CONSTANTS PlyCounts, MaxPanels, Sym, EmitCases
VARIABLES plies, edges
vars == <<plies, edges>>
Init == \E n \in PlyCounts : plies = <<n>> /\ edges = {}
AddPanel(n, to) == /\ Len(plies) < MaxPanels
                   /\ plies' = Append(plies, n)
                   /\ edges' = edges \cup {<<q, Len(plies) + 1>> : q \in to}
Next == \E n \in PlyCounts : \E to \in (SUBSET (1..Len(plies))) \ {{}} : AddPanel(n, to)
Spec == Init /\ [][Next]_vars

C == StripCounts(plies)
SE == StripEdges(plies, edges)
W(e) == e[1] + 10 * e[2]
Unit == IF Sym THEN 2 ELSE 1
AllConnected == Connected(Len(plies), edges)
StripConnected == Len(C) = 1 \/ Connected(Len(C), SE)
Conserved == SumOver(SE, LAMBDA s : StripWeight(plies, edges, W, s))
  + SumOver({e \in edges : plies[e[1]] = plies[e[2]]}, W) = SumOver(edges, W)
GuideCounts == \A p \in DOMAIN plies : C[Guide(plies, p)] = plies[p]
RefRange == \A r \in 0..(Max(PlyCounts) + 2) :
  LET k == RefIndex(C, r) IN /\ k \in 1..Len(C)
                             /\ \A q \in DOMAIN C : q < k => C[q] < r
                             /\ C[k] >= r \/ k = Len(C)
Regular == WalkRegular(C, Unit)
WalkThin == Regular => \A ref \in DOMAIN C :
  LET t == ThinWalk(C, ref, Unit) IN
  IF ref = 1 THEN t = <<>>
  ELSE /\ t[1].before = C[ref] /\ t[Len(t)].after = C[1] /\ t[Len(t)].panel = 1
       /\ \A s \in DOMAIN t : /\ t[s].after = t[s].before - Unit
                              /\ s > 1 => t[s].before = t[s - 1].after
                              /\ C[t[s].panel] <= t[s].after
       /\ Cardinality({s \in DOMAIN t : t[s].new}) = ref - 1
       /\ \A q \in 1..(ref - 1) : \E s \in DOMAIN t : t[s].panel = q /\ t[s].after = C[q]
WalkThick == Regular => \A ref \in DOMAIN C :
  LET t == ThickWalk(C, ref, Unit) IN
  IF ref = Len(C) THEN t = <<>>
  ELSE /\ t[1].before = C[ref] /\ t[Len(t)].after = C[Len(C)]
       /\ \A s \in DOMAIN t : /\ t[s].after = t[s].before + Unit
                              /\ C[t[s].panel] >= t[s].after
       /\ \A q \in (ref + 1)..Len(C) : \E s \in DOMAIN t :
             t[s].panel = q /\ t[s].after = C[q]
Emit == EmitCases => PrintT("GEN|" \o ToJson([plies |-> plies,
          edges |-> Sorted({10 * e[1] + e[2] : e \in edges})]))
=============================================================================
