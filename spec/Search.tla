------------------------------- MODULE Search -------------------------------
(* The beam searches of BELLA and LAYLA build a lay-up ply by ply from the    *)
(* surfaces to the mid-plane. Each new ply is chosen among the orientations   *)
(* that pruning keeps. Here: which orientations pruning has to discard        *)
(* because the plies laid so far already break a guideline, and which it has  *)
(* to keep.                                                                    *)
EXTENDS Guidelines

(* sym:  plies 1..H are laid in this order (H counts the middle ply)          *)
(* asym: plies are laid in the order bottom, top, bottom, ...                 *)
HalfUp(n) == (n \div 2) + (n % 2)
Turns(sym, n) == IF sym THEN HalfUp(n) ELSE n
NextIsBottom(sym, bot, top) == sym \/ Len(bot) = Len(top)
(* the 0-based position of the next ply in the laminate *)
NextLevel(sym, n, bot, top) ==
  IF sym THEN Len(bot)
  ELSE IF Len(bot) = Len(top) THEN Len(bot) ELSE n - 1 - Len(top)
Complete(sym, n, bot, top) == Len(bot) + Len(top) = Turns(sym, n)
Whole(sym, n, bot, top) ==
  IF sym THEN bot \o (IF n % 2 = 1 THEN Tail(RevSeq(bot)) ELSE RevSeq(bot))
  ELSE bot \o top

MiddleOK(sym, n, ss) == sym /\ n % 2 = 1 => ss[HalfUp(n)] \in {0, 90}
(* what a lay-up out of the search has to satisfy *)
Compliant(c, n, ss) ==
  /\ DamTol(ss, c)
  /\ c.diso => Diso(Core(ss, c), c.delta)
  /\ c.contig => Contig(Core(ss, c), c.n_contig)
  /\ MiddleOK(c.sym, n, ss)

(* damage tolerance on the outermost plies of a surface, outermost first *)
SurfaceOK(c, s) ==
  c.dam_tol /\ s # <<>> =>
    /\ s[1] \in Pm45
    /\ TwoPlyRule(c) /\ Len(s) >= 2 =>
         IF c.dam_tol_rule = 2 THEN s[2] = -s[1] ELSE s[2] \in Pm45
(* the plies of a surface that count for disorientation and contiguity *)
CoreSide(c, s, whole) ==
  IF TwoPlyRule(c) /\ ~whole /\ s # <<>> THEN Tail(s) ELSE s
RunsOK(c, s, whole) ==
  /\ c.diso => Diso(CoreSide(c, s, FALSE), c.delta)
  /\ c.contig => Contig(CoreSide(c, s, whole), c.n_contig)
(* whole: the surface plies count as well in the contiguity rule *)
PartialOK(c, n, bot, top, whole) ==
  LET up == RevSeq(top) IN
  /\ SurfaceOK(c, bot) /\ SurfaceOK(c, up)
  /\ RunsOK(c, bot, whole) /\ RunsOK(c, up, whole)
  /\ Complete(c.sym, n, bot, top) =>
       LET ss == Whole(c.sym, n, bot, top) IN
       /\ c.diso => Diso(Core(ss, c), c.delta)
       /\ c.contig => Contig(IF whole THEN ss ELSE Core(ss, c), c.n_contig)
       /\ MiddleOK(c.sym, n, ss)

Extend(sym, bot, top, a) ==
  IF NextIsBottom(sym, bot, top) THEN <<Append(bot, a), top>>
                                 ELSE <<bot, <<a>> \o top>>
(* the orientations that break nothing *)
May(c, n, bot, top) ==
  {a \in Range(c.angles) : LET e == Extend(c.sym, bot, top, a)
                           IN PartialOK(c, n, e[1], e[2], FALSE)}
(* the orientations that even pass when runs that include an exempt surface   *)
(* ply count; the second surface ply may be restricted to the opposite of the *)
(* first                                                                       *)
Must(c, n, bot, top) ==
  LET e(a) == Extend(c.sym, bot, top, a)
      side == IF NextIsBottom(c.sym, bot, top) THEN bot ELSE RevSeq(top)
      second == TwoPlyRule(c) /\ Len(side) = 1
  IN {a \in Range(c.angles) :
        IF second THEN a = -side[1] /\ PartialOK(c, n, e(a)[1], e(a)[2], FALSE)
        ELSE PartialOK(c, n, e(a)[1], e(a)[2], TRUE)}
=============================================================================
