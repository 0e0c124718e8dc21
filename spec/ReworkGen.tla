------------------------------ MODULE ReworkGen ------------------------------
(* The redesign of the ply drops as a state machine: from a compliant         *)
(* reference laminate, plies are dropped (phase thin) or added (phase thick). *)
EXTENDS Rework, TLC, Json
CONSTANTS Cfg, N, Steps, EmitCases
C == Cfg
VARIABLES ref, conf, phase, n
vars == <<ref, conf, phase, n>>
Laminates ==
  {s \in [1..N -> Range(C.angles)] : C.sym => \A i \in 1..N : s[i] = s[N + 1 - i]}
Init == /\ \E s \in Laminates :
             /\ HasMiddle(C.sym, N) => s[Middle(N)] \in {0, 90}
             /\ Finished(C, s) /\ DamTol(s, C)
             /\ ref = s
        /\ phase \in {"thin", "thick"}
        /\ conf = IF phase = "thin" THEN NoDrop
                  ELSE [cur |-> ref, done |-> <<>>, q |-> Unknown]
        /\ n = 0
DropStep == /\ phase = "thin" /\ n < Steps
            /\ \E p \in DropPlaces(C, N) :
                 MayDrop(C, ref, conf, p) /\ conf' = Drop(C, ref, conf, p)
            /\ n' = n + 1 /\ UNCHANGED <<ref, phase>>
AddStep == /\ phase = "thick" /\ n < Steps
           /\ \E p \in AddPlaces(C, Len(conf.cur)) : \E a \in Range(C.angles) :
                MayAdd(C, conf, p, a) /\ conf' = Add(C, conf, p, a)
           /\ n' = n + 1 /\ UNCHANGED <<ref, phase>>
Next == DropStep \/ AddStep
Spec == Init /\ [][Next]_vars
Now == IF phase = "thin" THEN Plies(Without(ref, conf.D)) ELSE conf.cur
Size == Len(Now) = IF phase = "thin" THEN N - n * Unit(C) ELSE N + n * Unit(C)
Shape == C.sym => Symmetric(Now)
Surfaces == DamTol(Now, C)
Rules == /\ C.contig => Contig(Core(Now, C), C.n_contig)
         /\ TenFine(C, Now)
         /\ (phase = "thick" /\ C.diso) => Diso(Core(Now, C), C.delta)
Balance == C.bal => /\ NearlyBalanced(C, Now)
                    /\ (conf.q = Unknown) = BalMet(C, Now, <<>>)
(* dropping what was added, or adding what was dropped, leads back *)
Back == (phase = "thick" /\ n = 1) =>
          \E p \in DropPlaces(C, N + Unit(C)) :
             Plies(Without(conf.cur, Both(C, N + Unit(C), p))) = ref
(* the stepwise definition and the closed one agree *)
Agree == (phase = "thin" /\ n = Steps) =>
   conf.D \in {k.D : k \in DropMany(C, ref, {NoDrop}, DropPlaces(C, N), Steps)}
Emit == (EmitCases /\ n = 0 /\ phase = "thin") => PrintT("GEN|" \o ToJson([ss |-> ref]))
=============================================================================
