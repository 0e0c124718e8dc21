------------------------------- MODULE PdlGen --------------------------------
(* Ply drops are made one at a time, from the thickest panel to thinner and  *)
(* thinner ones: Drop stops one ply of the current panel, NextPanel starts a *)
(* thinner panel. Every reachable table is a guide-based ply-drop layout;    *)
(* the tables are printed as cases for the implementation.                   *)
EXTENDS Blending, TLC, Json
CONSTANTS Width, MaxPanels, EmitCases
VARIABLES drops, fresh      \* drop sets, thickest panel first; panel unchanged so far
vars == <<drops, fresh>>
Init == drops = <<{}>> /\ fresh = FALSE
Cur == drops[Len(drops)]
Drop(c) == /\ Len(drops) > 1 /\ c \in (1..Width) \ Cur /\ Cardinality(Cur) < Width - 1
           \* one order of stopping the plies of a panel is enough
           /\ \A d \in Cur \ drops[Len(drops) - 1] : d < c
           /\ drops' = [drops EXCEPT ![Len(drops)] = @ \cup {c}]
           /\ fresh' = FALSE
NextPanel == /\ ~fresh /\ Len(drops) < MaxPanels
             /\ drops' = Append(drops, Cur) /\ fresh' = TRUE
Next == NextPanel \/ \E c \in 1..Width : Drop(c)
Spec == Init /\ [][Next]_vars

P == Len(drops)
Table == [p \in 1..P |-> RowOf(Width, drops[P + 1 - p])]
Mirrored == [p \in 1..P |-> RevSeq(Table[p])]
Pairs == [k \in 1..(P - 1) |-> <<k, k + 1, 1>>]
Pen(t, md) == SpacingSc(t, NoPlies(P), NoPlies(P), Pairs, md, 1000)

Nested == NestedRows(Table)
Renumbered == \A p \in 1..P : Numbered(Table[p], 1)
Counts == \A p \in 1..P : Len(PliesOf(Table[p])) = Width - Cardinality(drops[P + 1 - p])
MirrorSame == \A md \in 1..3 : Pen(Table, md) = Pen(Mirrored, md)
MoreSpacing == \A md \in 1..3 : Pen(Table, md) <= Pen(Table, md + 1)
MetIsZero == \A md \in 1..3 :
  SpacingMet(Table, NoPlies(P), NoPlies(P), Pairs, md) <=> Pen(Table, md) = 0
(* a single drop at a boundary never violates the rule                       *)
SingleDrop == (\A p \in 1..(P - 1) : Cardinality(Kept(Table[p + 1]))
                 - Cardinality(Kept(Table[p])) <= 1) => Pen(Table, 3) = 0
(* guide-based blending: the stacks of all panels come from the thickest     *)
GuideStacks == LET s == FromGuide([i \in 1..Width |-> i], Table) IN
  \A p \in 1..P : \A k \in DOMAIN PliesOf(s[p]) :
     LET c == ColOfPly(Table[p], k) IN PliesOf(s[p])[k] = c /\ PosInPanel(Table[p], c) = k
Emit == (EmitCases /\ ~fresh /\ P > 1) => PrintT("GEN|" \o ToJson(Table))
=============================================================================
