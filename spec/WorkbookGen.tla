------------------------------ MODULE WorkbookGen ------------------------------
(* A user appends tables to sheets, adjusts widths and deletes the book.        *)
EXTENDS Workbook, Json
CONSTANTS Tables, SheetNames, Starts, Steps, EmitCases
VARIABLES book, there, hist, last
vars == <<book, there, hist, last>>
Tab(k) == [head |-> [c \in 1..Tables[k][2] |-> "h"],
           lab |-> [r \in 1..Tables[k][1] |-> "l"],
           body |-> [r \in 1..Tables[k][1] |-> [c \in 1..Tables[k][2] |-> ToString(Len(hist))]]]
Init == book = NoBook /\ there = FALSE /\ hist = <<>> /\ last = [b |-> NoBook, there |-> FALSE]
Do(what) == hist' = Append(hist, what) /\ last' = [b |-> book, there |-> there]
Add == \E s \in SheetNames, k \in DOMAIN Tables, at \in Starts \cup {-1},
         fresh \in BOOLEAN, both \in BOOLEAN :
         /\ fresh => at # -1
         /\ book' = Appended(book, s, Tab(k), both, both, at, fresh)
         /\ there' = TRUE
         /\ Do([op |-> "append", sheet |-> s, table |-> k, at |-> at,
                fresh |-> fresh, both |-> both])
Fit == there /\ UNCHANGED <<book, there>> /\ Do([op |-> "fit"])
Delete == \E a \in {"y", "no"} :
            /\ book' = Deleted(book, there, a)
            /\ there' = (there /\ a \notin Yes)
            /\ Do([op |-> "delete", answer |-> a])
Next == Len(hist) < Steps /\ (Add \/ Fit \/ Delete)
Spec == Init /\ [][Next]_vars

Act == hist[Len(hist)]
(* the other sheets and their order stay as they are *)
Frame == (hist # <<>> /\ Act.op = "append") =>
   /\ \A k \in DOMAIN last.b : book[k].name = last.b[k].name
        /\ (book[k].name # Act.sheet => book[k] = last.b[k])
   /\ Cardinality(Names(book)) = Len(book)
   /\ Names(book) = Names(last.b) \cup {Act.sheet}
(* without a place asked for nothing is overwritten *)
Below == (hist # <<>> /\ Act.op = "append" /\ Act.at = -1 /\ Act.sheet \in Names(last.b)) =>
   LET old == last.b[At(last.b, Act.sheet)].cells
       new == book[At(book, Act.sheet)].cells
   IN DOMAIN old \subseteq DOMAIN new /\ \A p \in DOMAIN old : new[p] = old[p]
(* the table written last can be read back as it is *)
Read == (hist # <<>> /\ Act.op = "append") =>
   LET new == book[At(book, Act.sheet)].cells
       mine == {p \in DOMAIN new : new[p] = ToString(Len(hist) - 1)}
   IN Cardinality(mine) = Tables[Act.table][1] * Tables[Act.table][2]
Gone == (hist # <<>> /\ Act.op = "delete") =>
   IF Act.answer \in Yes THEN book = NoBook /\ ~there ELSE book = last.b
Empty == (~there) => book = NoBook
Emit == (EmitCases /\ Len(hist) = Steps) => PrintT("GEN|" \o ToJson([hist |-> hist]))
=============================================================================
