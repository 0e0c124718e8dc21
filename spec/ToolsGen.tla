-------------------------------- MODULE ToolsGen --------------------------------
(* Two searches for subsets of given sums run in turns, each by going through the *)
(* subsets in the order of their members and skipping those beyond the sum. They  *)
(* find every solution once and only then stop.                                   *)
EXTENDS Tools, Json
CONSTANTS MaxN, MaxV, MaxS, EmitCases
VARIABLES prob, u, top, found, over, turn
vars == <<prob, u, top, found, over, turn>>
Who == {1, 2}

Sorted(n) == {v \in [1..n -> 0..MaxV] : \A i \in 1..(n - 1) : v[i] <= v[i + 1]}
Probs == UNION {{[v |-> v, s |-> s] : v \in Sorted(n), s \in 0..MaxS} : n \in 1..MaxN}
Init == /\ prob \in [Who -> Probs]
        /\ (prob[2].s = prob[1].s /\ Len(prob[2].v) = 1 + (prob[1].s % MaxN))
        /\ u = [k \in Who |-> Zeros(Len(prob[k].v))]
        /\ top = [k \in Who |-> -2]
        /\ found = [k \in Who |-> <<>>]
        /\ over = [k \in Who |-> FALSE]
        /\ turn = <<>>

RECURSIVE Walk(_, _, _)
(* from the choice x, whose last one is at t (counted from 0), to a solution *)
Back(p, x, t) ==
  LET b == BackUp(x, t) IN
  IF b < 0 THEN [more |-> FALSE, u |-> x, t |-> b]
  ELSE Walk(p, [x EXCEPT ![b + 1] = 0, ![b + 2] = 1], b + 1)
Walk(p, x, t) ==
  LET n == Len(p.v)  su == SumOf(x, p.v) IN
  IF su < p.s /\ t < n - 1 THEN Walk(p, [x EXCEPT ![t + 2] = 1], t + 1)
  ELSE IF su = p.s THEN [more |-> TRUE, u |-> x, t |-> t]
  ELSE IF t < 0 THEN [more |-> FALSE, u |-> x, t |-> t]
  ELSE Back(p, [x EXCEPT ![t + 1] = 0], t)
From(p, x, t) ==
  IF t = -2 THEN Walk(p, Zeros(Len(p.v)), -1)
  ELSE IF t < Len(p.v) - 1 /\ p.v[t + 2] = 0
  THEN Walk(p, [x EXCEPT ![t + 2] = 1], t + 1)
  ELSE IF t < 0 THEN [more |-> FALSE, u |-> x, t |-> t]
  ELSE IF t < Len(p.v) - 1 /\ p.v[t + 2] = p.v[t + 1]
  THEN Walk(p, [x EXCEPT ![t + 1] = 0, ![t + 2] = 1], t + 1)
  ELSE Back(p, [x EXCEPT ![t + 1] = 0], t)

Call(k) == /\ ~over[k]
           /\ LET w == From(prob[k], u[k], top[k]) IN
              /\ u' = [u EXCEPT ![k] = w.u]
              /\ top' = [top EXCEPT ![k] = w.t]
              /\ found' = IF w.more THEN [found EXCEPT ![k] = Append(@, w.u)] ELSE found
              /\ over' = [over EXCEPT ![k] = ~w.more]
           /\ turn' = Append(turn, k)
           /\ UNCHANGED prob
(* in turns: two calls of the first, one of the second, as far as they go *)
Due == IF over[1] THEN 2 ELSE IF over[2] THEN 1 ELSE IF Len(turn) % 3 = 2 THEN 2 ELSE 1
Next == (\E k \in Who : over[k] = FALSE /\ k = Due /\ Call(k))
Spec == Init /\ [][Next]_vars

Once == \A k \in Who : \A i, j \in DOMAIN found[k] : i < j => found[k][i] # found[k][j]
Sound == \A k \in Who : \A i \in DOMAIN found[k] :
            SumOf(found[k][i], prob[k].v) = prob[k].s
AllFound == \A k \in Who : over[k] => ToSet(found[k]) = Solutions(prob[k].v, prob[k].s)
Emit == (EmitCases /\ over[1] /\ over[2]) =>
        PrintT("GEN|" \o ToJson([probs |-> prob, turn |-> turn]))
=============================================================================
