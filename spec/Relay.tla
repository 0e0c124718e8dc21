------------------------------- MODULE Relay --------------------------------
(* The repair of a lay-up as a relay of stages. A stage receives a stack, in  *)
(* which the innermost plies may be unknown (666), together with a queue of   *)
(* the orientations to be placed there, and hands over a stack and a queue.   *)
(* This module says what each stage guarantees to the next one.               *)
EXTENDS Guidelines

Unknown == 666
CeilDiv(a, b) == (a + b - 1) \div b

(* ---- the plies that a stage may place: outermost first ------------------ *)
(* sym: one half, without the middle ply; asym: top, bottom, top - 1, ...     *)
Slots(sym, n) == IF sym THEN n \div 2 ELSE n
SlotPos(sym, n, i) ==
  IF sym THEN i
  ELSE IF i % 2 = 1 THEN n + 1 - ((i + 1) \div 2) ELSE i \div 2
HasMiddle(sym, n) == sym /\ n % 2 = 1
Middle(n) == (n \div 2) + 1

(* number of slots holding a, among the first k slots *)
SlotCount(ss, sym, k, a) ==
  Cardinality({i \in 1..k : ss[SlotPos(sym, Len(ss), i)] = a})

(* ---- stage 1: 10% rule and balance, on ply counts ------------------------ *)
(* smallest numbers of slots per direction that respect the 10% rule; the     *)
(* middle ply is not counted on                                               *)
MinSlots(c, n) ==
  LET d == IF c.sym THEN 200 ELSE 100
      m(p) == CeilDiv(p * n, d)
      m45 == IF c.bal THEN Max2(Max2(m(c.p.p45), m(c.p.p135)),
                                CeilDiv(c.p.p45_135 * n, 2 * d))
                      ELSE m(c.p.p45)
      m135 == IF c.bal THEN m45 ELSE m(c.p.p135)
  IN IF ~c.ten THEN [m0 |-> 0, m90 |-> 0, m45 |-> 0, m135 |-> 0, both |-> 0]
     ELSE [m0 |-> m(c.p.p0), m90 |-> m(c.p.p90), m45 |-> m45, m135 |-> m135,
           both |-> m(c.p.p45_135)]
(* the fewest slots that turn the counts cnt (a function of the angle) into   *)
(* compliant ones by adding plies only                                        *)
Needs(c, n, cnt(_)) ==
  LET m == MinSlots(c, n)
      n0 == Max2(0, m.m0 - cnt(0))
      n90 == Max2(0, m.m90 - cnt(90))
      top45 == Max2(Max2(cnt(45), cnt(-45)), m.m45)
      n45 == IF c.bal THEN top45 - cnt(45) ELSE Max2(0, m.m45 - cnt(45))
      n135 == IF c.bal THEN top45 - cnt(-45) ELSE Max2(0, m.m135 - cnt(-45))
      extra == IF c.bal THEN 0
               ELSE Max2(0, m.both - (cnt(45) + n45 + cnt(-45) + n135))
      others == {a \in Range(c.angles) : a > 0 /\ a < 90 /\ a # 45}
  IN n0 + n90 + n45 + n135 + extra
     + (IF c.bal THEN SumOver(others, LAMBDA a : AbsI(cnt(a) - cnt(-a))) ELSE 0)

(* stage 1 may leave everything to the queue when even that is not enough     *)
Feasible(c, n) == Needs(c, n, LAMBDA a : 0) <= Slots(c.sym, n)
ActiveCount(c) == c.bal \/ c.ten
(* the longest outer part of the stack that can be kept *)
Keep(c, ss) ==
  LET n == Len(ss)
      S == Slots(c.sym, n)
      ok(k) == Needs(c, n, LAMBDA a : SlotCount(ss, c.sym, k, a)) <= S - k
  IN IF ~ActiveCount(c) THEN S
     ELSE CHOOSE k \in 0..S : ok(k) /\ \A j \in (k+1)..S : ~ok(j)

FixMiddle(c, ss) ==
  IF HasMiddle(c.sym, Len(ss)) /\ ss[Middle(Len(ss))] \notin {0, 90}
  THEN [ss EXCEPT ![Middle(Len(ss))] = 0] ELSE ss

Positions(sym, n, S) == {SlotPos(sym, n, i) : i \in S}
                        \cup (IF sym THEN {n + 1 - i : i \in S} ELSE {})
UnknownSlots(ss, sym) ==
  {i \in 1..Slots(sym, Len(ss)) : ss[SlotPos(sym, Len(ss), i)] = Unknown}
(* unknown plies are the innermost slots, mirrored when symmetric, and there  *)
(* is one queued orientation for each                                          *)
Handover(c, ss, queue) ==
  LET U == UnknownSlots(ss, c.sym) IN
  /\ \A i \in U : i + 1 <= Slots(c.sym, Len(ss)) => i + 1 \in U
  /\ c.sym => Symmetric(ss)
  /\ HasMiddle(c.sym, Len(ss)) => ss[Middle(Len(ss))] # Unknown
  /\ Len(queue) = Cardinality(U)
  /\ Range(queue) \subseteq Range(c.angles)

(* doubled ply counts of the finished laminate (stack and queue) *)
Total(ss, queue, sym, a) ==
  2 * (Count(ss, a) + (IF sym THEN 2 ELSE 1) * Count(queue, a))
TenMet(c, ss, queue) ==
  LET f(a) == Total(ss, queue, c.sym, a) \div 2
  IN ~c.ten \/ TenOK(c.p, f(0), f(45), f(90), f(-45), Len(ss))
BalMet(c, ss, queue) ==
  ~c.bal \/ \A a \in Range(c.angles) : a \in {0, 90} \/
              Total(ss, queue, c.sym, a) = Total(ss, queue, c.sym, -a)

(* ---- stage 2: in-plane refinement -- see TraceRelay ---------------------- *)
(* ---- stage 3: ordering for disorientation and contiguity ------------------*)
Ordered(c, ss) == /\ c.diso => Diso(Core(ss, c), c.delta)
                  /\ c.contig => Contig(ss, c.n_contig)
(* the plies of the finished laminate, as a bag *)
Placed(ss, queue, sym) ==
  SelectSeq(ss, LAMBDA a : a # Unknown) \o queue \o (IF sym THEN queue ELSE <<>>)

(* number of surface plies that damage tolerance fixes *)
FixedPlies(c) == IF ~c.dam_tol THEN 0 ELSE IF TwoPlyRule(c) THEN 2 ELSE 1
(* the surface plies from which the search for an order starts *)
Anchors(c) == Max2(1, FixedPlies(c))
AnchorPos(c, n) == (1..Anchors(c)) \cup
  (IF c.sym THEN {} ELSE (n + 1 - Anchors(c))..n)
AnchorsKnown(c, ss) == \A i \in AnchorPos(c, Len(ss)) : ss[i] # Unknown
(* the plies between the anchors, in one half when symmetric *)
FreePlies(c, ss, queue) ==
  LET n == Len(ss)
      a == Anchors(c)
      inner == IF c.sym THEN SubSeq(ss, a + 1, n \div 2)
               ELSE SubSeq(ss, a + 1, n - a)
  IN SelectSeq(inner, LAMBDA x : x # Unknown) \o queue
(* the laminate with the plies f, in this order, between the anchors *)
Arranged(c, ss, f) ==
  LET n == Len(ss)
      a == Anchors(c)
      left == SubSeq(ss, 1, a) \o f
  IN IF c.sym
     THEN left \o (IF n % 2 = 1 THEN <<ss[Middle(n)]>> ELSE <<>>) \o RevSeq(left)
     ELSE left \o SubSeq(ss, n + 1 - a, n)
Arrangements(s) ==
  LET D == DOMAIN s IN
  {[i \in D |-> s[p[i]]] : p \in {q \in [D -> D] : \A i, j \in D : i # j => q[i] # q[j]}}
(* some order of the plies between the anchors is fine *)
CanBeOrdered(c, ss, queue) ==
  \E f \in Arrangements(FreePlies(c, ss, queue)) : Ordered(c, Arranged(c, ss, f))

(* ---- the laminate at the end of the relay -------------------------------- *)
Finished(c, ss) ==
  /\ Range(ss) \subseteq Range(c.angles)
  /\ c.sym => Symmetric(ss)
  /\ DamTol(ss, c)
  /\ Ordered(c, ss)
  /\ TenMet(c, ss, <<>>) /\ BalMet(c, ss, <<>>)
=============================================================================
