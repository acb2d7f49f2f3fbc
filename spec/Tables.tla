------------------------------- MODULE Tables -------------------------------
(* Tables of the model as they are edited, and what can be seen of them.      *)
(*                                                                            *)
(* A column object c has a name NameOf[c] and a comment; the first table that *)
(* it is added to owns it, every other addition adds a copy.                  *)
(* An edit is one of                                                          *)
(*   [e |-> "col", t, c]      add column object c to table t                  *)
(*   [e |-> "set", c, v]      give column object c the comment v              *)
(*   [e |-> "setin", t, p, v] give the p-th column of table t the comment v   *)
(*   [e |-> "idx", t, v]      add an index called v                           *)
(*   [e |-> "opt", t, v]      add an option with key v                        *)
EXTENDS Naturals, Sequences, FiniteSets

Empty == [cols |-> << >>, idx |-> << >>, opts |-> << >>]
(* owned: the objects that have an owner; com: comment of each object *)
Start(tables, objects) == [tab |-> [ t \in tables |-> Empty ], owned |-> {}, com |-> [ c \in objects |-> "" ]]

(* An entry of a column list: its object, or 0 and a copy *)
Entry(s, c) == IF c \in s.owned THEN [obj |-> 0, src |-> c, com |-> s.com[c]] ELSE [obj |-> c, src |-> c, com |-> ""]
Possible(s, e) == e.e = "setin" => e.p \in 1..Len(s.tab[e.t].cols)
Edit(s, e) ==
  CASE e.e = "col" -> [s EXCEPT !.tab[e.t].cols = Append(@, Entry(s, e.c)), !.owned = @ \cup {e.c}]
    [] e.e = "set" -> [s EXCEPT !.com[e.c] = e.v]
    [] e.e = "setin" -> LET x == s.tab[e.t].cols[e.p] IN
                        IF x.obj = 0 THEN [s EXCEPT !.tab[e.t].cols[e.p].com = e.v] ELSE [s EXCEPT !.com[x.obj] = e.v]
    [] e.e = "idx" -> [s EXCEPT !.tab[e.t].idx = Append(@, e.v)]
    [] e.e = "opt" -> [s EXCEPT !.tab[e.t].opts = Append(@, e.v)]
RECURSIVE EditAll(_, _, _)
EditAll(s, es, i) == IF i > Len(es) THEN s ELSE EditAll(Edit(s, es[i]), es, i + 1)

(* The columns of t as they are seen *)
ColumnsOf(s, t, names) ==
  [ i \in 1..Len(s.tab[t].cols) |->
      LET x == s.tab[t].cols[i] IN [name |-> names[x.src], com |-> IF x.obj = 0 THEN x.com ELSE s.com[x.obj]] ]

(* A lookup l of a name: found, at (position of the column that is returned,  *)
(* from 1), ofound, order (from 0), bfound, before (position)                 *)
LookupRight(cols, l) ==
  LET P == { i \in 1..Len(cols) : cols[i].name = l.name } IN
  IF P = {} THEN ~l.found /\ ~l.ofound /\ ~l.bfound
  ELSE \E p \in P : /\ l.found /\ l.at = p
                    /\ l.ofound /\ l.order = p - 1
                    /\ IF p = 1 THEN ~l.bfound ELSE l.bfound /\ l.before = p - 1

(* o: what is seen of table t in state s; defs: the rest of the definitions   *)
TableRight(s, t, names, defs, o) ==
  LET cols == ColumnsOf(s, t, names) IN
  CASE o.cols # cols -> "columns"
    [] o.defs # [ i \in 1..Len(cols) |-> defs[s.tab[t].cols[i].src] ] -> "definition of a column"
    [] o.owners # [ i \in 1..Len(cols) |-> TRUE ] -> "owner of a column"
    [] o.idx # s.tab[t].idx -> "indexes"
    [] o.opts # s.tab[t].opts -> "options"
    [] o.idxfound # [ i \in 1..Len(o.idx) |-> TRUE ] -> "an index is not found"
    [] o.idxother -> "an index that was not added is found"
    [] \E i \in 1..Len(o.lookups) : ~LookupRight(cols, o.lookups[i]) -> "lookup of a column"
    [] OTHER -> ""

-----------------------------------------------------------------------------
(* Additions and lookups at the same time. An operation is                    *)
(*   [k |-> "add" | "hit" | "miss", pos, inv, ret]                            *)
(* pos is the position of its column in the final list (from 1; 0 for a       *)
(* column that was never added), inv and ret when it was called and returned. *)
(* Columns are only ever appended, so each operation says something about how *)
(* long the list is when it takes effect, and a has to take effect before b   *)
(* if MustPrecede(a, b). Calls can be put in an order that explains them if   *)
(* and only if none of these pairs happened the other way round.              *)
MustPrecede(a, b) ==
  /\ a.k \in {"add", "miss"} /\ b.k \in {"add", "hit"} /\ a.pos > 0 /\ b.pos > 0
  /\ IF a.k = "add" /\ b.k = "add" THEN a.pos < b.pos ELSE a.pos <= b.pos
Linearizable(ops) == \A a \in 1..Len(ops) : \A b \in 1..Len(ops) :
  a # b /\ MustPrecede(ops[a], ops[b]) => ~(ops[b].ret < ops[a].inv)
=============================================================================
