------------------------------ MODULE SearchGen -----------------------------
(* The search as a state machine: lay-ups grow through the admissible         *)
(* orientations only. Sound: every finished lay-up is compliant. Complete:    *)
(* no orientation is inadmissible as long as a compliant lay-up remains.      *)
EXTENDS Search, TLC, Json
CONSTANTS Cfg, N
C == Cfg
ASet == Range(C.angles)
VARIABLES bot, top
vars == <<bot, top>>
Init == bot = <<>> /\ top = <<>>
Lay(a) == /\ ~Complete(C.sym, N, bot, top)
          /\ a \in May(C, N, bot, top)
          /\ LET e == Extend(C.sym, bot, top, a)
             IN bot' = e[1] /\ top' = e[2]
Next == \E a \in ASet : Lay(a)
Spec == Init /\ [][Next]_vars

Sound == Complete(C.sym, N, bot, top)
           => Compliant(C, N, Whole(C.sym, N, bot, top))
(* a compliant lay-up that begins like this one shows that the next ply was   *)
(* admissible: no compliant lay-up is lost                                     *)
Left == Turns(C.sym, N) - Len(bot) - Len(top)
RECURSIVE Fill(_, _, _)
Fill(b, t, plies) ==
  IF plies = <<>> THEN Whole(C.sym, N, b, t)
  ELSE LET e == Extend(C.sym, b, t, Head(plies))
       IN Fill(e[1], e[2], Tail(plies))
NoLoss == Left \in 1..3 =>
  \A plies \in [1..Left -> ASet] :
    Compliant(C, N, Fill(bot, top, plies)) => plies[1] \in May(C, N, bot, top)
MustMay == ~Complete(C.sym, N, bot, top) =>
  Must(C, N, bot, top) \subseteq May(C, N, bot, top)
Emit == ~Complete(C.sym, N, bot, top) =>
  PrintT("GEN|" \o ToJson([bot |-> bot, top |-> top,
                           level |-> NextLevel(C.sym, N, bot, top)]))
=============================================================================
