------------------------------ MODULE Transfer -------------------------------
(* A set-up goes into the sheets of a workbook and from there, through a script, *)
(* to the optimiser. A set-up: rules, coefs, mat, panels; a panel: id, nbrs, n,  *)
(* w, tg, wt and, for the scripts that need them, lx, ly, nx, ny.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sheets == {"Panels", "Constraints", "Objective function", "Materials"}
Held(g, sh) ==
  CASE sh = "Panels" -> g.panels
    [] sh = "Constraints" -> g.rules
    [] sh = "Objective function" -> g.coefs
    [] sh = "Materials" -> g.mat
(* scripts: "plain" does not ask for sizes and loads, "loaded" does *)
Needed(script, p) ==
  IF script = "loaded" THEN p
  ELSE [id |-> p.id, nbrs |-> p.nbrs, n |-> p.n, w |-> p.w, tg |-> p.tg, wt |-> p.wt]
(* what the optimiser is given when the sheets of the book are read *)
Handed(script, book) ==
  [rules |-> book["Constraints"], coefs |-> book["Objective function"],
   mat |-> book["Materials"],
   panels |-> [i \in DOMAIN book["Panels"] |-> Needed(script, book["Panels"][i])]]
Written(g) == [sh \in Sheets |-> Held(g, sh)]
Arrives(script, g) == Handed(script, Written(g))
=============================================================================
