----------------------------- MODULE Penalties ------------------------------
(* What a stack pays for breaking guidelines.                                 *)
EXTENDS Beam
Bl == INSTANCE Blending

Sc == 10000
(* penalties of a stack, scaled by 10000 *)
NDiso(c, s) == Cardinality(DisoBad(Core(s, c), c.delta))
PenDiso(c, s) == IF c.diso THEN Scaled(NDiso(c, s), Len(s), Sc) ELSE 0
NContig(c, s) == Cardinality(ContigBad(s, c.n_contig))
TenCounts(s) == [a \in {0, 45, -45, 90} \cup Range(s) |-> Count(s, a)]
PenTen(c, s) ==
  IF ~c.ten THEN 0
  ELSE LET f == TenCounts(s) IN
       Scaled(TenShort(c.p, f[0], f[45], f[90], f[-45], Len(s)), 100 * Len(s), Sc)
NoRows(t) == [i \in DOMAIN t |-> <<>>]
(* a table of stacks, one row for each panel of a strip; md: continuous plies  *)
(* between drops                                                               *)
PenSpacing(t, md) == Bl!SpacingSc(t, NoRows(t), NoRows(t),
                       [i \in 1..(Len(t) - 1) |-> <<i, i + 1, 1>>], md, Sc)
=============================================================================
