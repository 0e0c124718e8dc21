----------------------------- MODULE TracePlate ------------------------------
(* Replays recorded buckling factors and set-up sheets.                        *)
EXTENDS Plate, TraceBase

(* op "stack", "lampam": u, p, modes, ss or at = <<x, y>> (in 1/100): r *)
(* op "margin": at (1/100): r in percent *)
(* op "plates": s: u, counts, tg (1/100), plates, w, ids, sst, min_drop, spacing *)
PlateSheet(c, s, r) ==
  LET P == Len(s.counts) IN
  IF Len(r.rows) # P THEN {"there is one row for each panel"}
  ELSE UNION {LET x == r.rows[i]  t == SelectSeq(s.sst[i], LAMBDA a : a # -1)  n == s.counts[i]
                  two(k) == AbsI(Lampam(t, k)) + AbsI(Lampam(t, k + 1))
              IN
     Need(x.id = s.ids[i] /\ x.n = n /\ x.w = 1000 * s.w[i], "the panels saved are those given")
     \cup Need(/\ x.area = 1000 * s.plates[i].lx * s.plates[i].ly
               /\ x.lx = 1000 * s.plates[i].lx /\ x.ly = 1000 * s.plates[i].ly
               /\ x.nx = 1000 * s.plates[i].nx /\ x.ny = 1000 * s.plates[i].ny,
               "sizes and loads saved are those given")
     \cup Need(CloseTo(x.lam, Critical(s.u, 100 * s.tg[i][9], 100 * s.tg[i][10], s.plates[i], 10)),
               "the buckling factor saved is that of the targets")
     \cup Need(Near(x.pd, PenDiso(c, t), 2), "the disorientation penalty is that of the stack")
     \cup Need((x.pc = 0) <=> (~c.contig \/ Contig(Core(t, c), c.n_contig)),
               "the contiguity penalty is that of the stack")
     \cup Need(c.abdalla \/ Near(x.pt, PenTen(c, t), 2), "the 10% penalty is that of the stack")
     \cup Need(/\ Near(2 * x.pi, IF c.bal THEN two(3) ELSE 0, 6)
               /\ Near(2 * x.po, IF c.oopo THEN two(11) ELSE 0, 6),
               "the orthotropy penalties are those of the stack")
     : i \in 1..P}
  \cup Need(Near(r.gap, IF s.spacing THEN PenSpacing(s.sst, s.min_drop) ELSE 0, 2 * P),
            "the ply-drop spacing penalty is that of the table")
  \cup Need(/\ r.panels = P /\ r.most = Max(Range(s.counts))
            /\ r.area = 1000 * SumTo(P, LAMBDA i : s.plates[i].lx * s.plates[i].ly)
            /\ r.weight = s.dens * SumTo(P, LAMBDA i :
                            s.plates[i].lx * s.plates[i].ly * s.counts[i]),
            "the structure saved is that given")
(* op "designs": the buckling factors saved with a design: those of its stacks *)
Designs(c, s, r) ==
  LET P == Len(s.counts)
      ss(i) == SelectSeq(s.sst[i], LAMBDA a : a # -1)
  IN
  Need(IF s.asked THEN Len(r.lam) = P /\ \A i \in 1..P :
         CloseTo(r.lam[i], OfStack(s.u, ss(i), s.plates[i], 10))
       ELSE r.lam = <<>>,
       "the buckling factors saved are those of the stacks, if asked for")
  \cup Need(Len(r.twist) = P /\ \A i \in 1..P : \A k \in 1..2 :
         LET t == OfTwist(s.u, ss(i))[k] IN Near(r.twist[i][k], t, 4 + t \div 25),
       "the anisotropies saved are those of the stacks")
(* op "materials": the sheet of the material; all moduli in 1/100 GPa *)
MaterialSheet(e) ==
  Need(e.r = e.m, "the material saved is the one given")

Judge(t, e) ==
  IF e.k = "odd" THEN {"the result is malformed"}
  ELSE IF e.k = "exc" THEN {"the call raised an exception"}
  ELSE CASE e.op = "stack" -> Need(CloseTo(e.r, OfStack(e.u, e.ss, e.p, e.modes)),
                                   "the buckling factor of a stack")
         [] e.op = "lampam" -> Need(CloseTo(e.r, Critical(e.u, 100 * e.at[1], 100 * e.at[2], e.p, e.modes)),
                                    "the buckling factor for lamination parameters")
         [] e.op = "margin" -> Need(e.r = e.at - 100, "the buckling margin")
         [] e.op = "plates" -> PlateSheet(t.c, e.s, e.r)
         [] e.op = "designs" -> Designs(t.c, e.s, e.r)
         [] e.op = "materials" -> MaterialSheet(e)
         [] OTHER -> {"unknown step"}
TraceInit == tid \in 1..Len(Trace) /\ pos = 0
TraceNext == /\ More
             /\ Say(Judge(Trace[tid], Step))
             /\ pos' = pos + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
