------------------------------- MODULE Workbook --------------------------------
(* Workbooks to which tables are appended. A book is a sequence of sheets, a     *)
(* sheet has a name and cells: a function from <<row, column>> to what is shown  *)
(* (Blank for a cell that was written empty).                                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Blank == ""
NoBook == <<>>
Names(b) == {b[k].name : k \in DOMAIN b}
At(b, s) == CHOOSE k \in DOMAIN b : b[k].name = s
Rows(cells) == {p[1] : p \in DOMAIN cells}
(* an empty sheet has one row *)
Bottom(cells) == IF DOMAIN cells = {} THEN 1 ELSE Max(Rows(cells))

(* table: head (names of the columns), lab (labels of the rows), body; header    *)
(* and index tell whether names and labels are written; the corner is left alone *)
Block(t, header, index, r0) ==
  LET h == IF header THEN 1 ELSE 0
      i == IF index THEN 1 ELSE 0
      names == {<<r0 + 1, c + i>> : c \in IF header THEN DOMAIN t.head ELSE {}}
      labs == {<<r0 + h + r, 1>> : r \in IF index THEN DOMAIN t.lab ELSE {}}
      body == {<<r0 + h + r, i + c>> : r \in DOMAIN t.lab, c \in DOMAIN t.head}
  IN [p \in names \cup labs \cup body |->
        IF p \in body THEN t.body[p[1] - r0 - h][p[2] - i]
        ELSE IF p \in names THEN t.head[p[2] - i]
        ELSE t.lab[p[1] - r0 - h]]
(* at: the row above the table, or -1: below what the sheet holds               *)
Appended(b, s, t, header, index, at, fresh) ==
  IF s \notin Names(b)
  THEN Append(b, [name |-> s,
                  cells |-> Block(t, header, index, IF at = -1 THEN 0 ELSE at)])
  ELSE LET k == At(b, s)  old == b[k].cells
           r0 == IF at = -1 THEN Bottom(old) ELSE at
           new == Block(t, header, index, r0)
       IN [b EXCEPT ![k].cells = IF fresh THEN new ELSE new @@ old]
(* asked whether the book may be deleted: kept unless the user agrees           *)
Yes == {"y", "Y", "yes", "Yes", "YES"}
Deleted(b, there, answer) == IF there /\ answer \in Yes THEN NoBook ELSE b

(* what can be seen of a book *)
Shown(cells) == {<<p[1], p[2], cells[p]>> : p \in {q \in DOMAIN cells : cells[q] # Blank}}
Seen(b) == [k \in DOMAIN b |-> <<b[k].name, Shown(b[k].cells)>>]
=============================================================================
