------------------------------ MODULE Objects -------------------------------
(* Objects of the model as they are built through its interface. The heap is  *)
(* a sequence of objects; an object is a record of its attributes, where the  *)
(* attributes "len" (of a column), "ref" (of an index) and "cols" (of an      *)
(* index or a reference) name other objects. A call is one of                 *)
(*   [op |-> "set", o, a, v]  a setter: attribute a of object o becomes v     *)
(*   [op |-> "add", o, a, v]  an addition: v is appended to attribute a       *)
(*   [op |-> "clone", o]      a new object, at the end of the heap            *)
EXTENDS Naturals, Sequences

NoLen == 0
NewColumn(n) == [kind |-> "col", name |-> n, typ |-> "", len |-> 0, uns |-> FALSE, zf |-> FALSE, bin |-> FALSE, cs |-> << >>, co |-> << >>,
                 upd |-> << >>, nul |-> "none", def |-> << >>, ai |-> FALSE, uniq |-> FALSE, prim |-> FALSE, key |-> FALSE, com |-> << >>,
                 enum |-> << >>, set |-> << >>, tid |-> ""]
NewLength(v) == [kind |-> "len", len |-> v, dec |-> << >>]
NewIndexColumn(n) == [kind |-> "ixcol", n |-> n, len |-> << >>, dir |-> "none"]
NewReference == [kind |-> "ref", t |-> "", cols |-> << >>, match |-> "none", del |-> "none", upd |-> "none"]
NewIndex(k) == [kind |-> "idx", ikind |-> k, sym |-> << >>, name |-> << >>, typ |-> "none", cols |-> << >>, opts |-> << >>, ref |-> 0]
NewTable(n) == [kind |-> "tab", name |-> n, temp |-> FALSE, ine |-> FALSE, like |-> << >>]
NewDatabase(n) == [kind |-> "db", name |-> n, ine |-> FALSE]

Do(h, e) ==
  CASE e.op = "set"   -> [h EXCEPT ![e.o][e.a] = e.v]
    [] e.op = "add"   -> [h EXCEPT ![e.o][e.a] = Append(@, e.v)]
    [] e.op = "clone" -> Append(h, h[e.o])
RECURSIVE DoAll(_, _, _)
DoAll(h, es, i) == IF i > Len(es) THEN h ELSE DoAll(Do(h, es[i]), es, i + 1)

(* What an object shows: the objects that it names in place of their names    *)
IxCol(x) == [n |-> x.n, len |-> x.len, dir |-> x.dir]
IxCols(h, s) == [ i \in 1..Len(s) |-> IxCol(h[s[i]]) ]
Refers(h, x) == [t |-> x.t, cols |-> IxCols(h, x.cols), match |-> x.match, del |-> x.del, upd |-> x.upd]
View(h, o) ==
  LET x == h[o] IN
  CASE x.kind = "col" -> [x EXCEPT !.len = IF @ = 0 THEN << >> ELSE << [len |-> h[@].len, dec |-> h[@].dec] >>]
    [] x.kind = "idx" -> [x EXCEPT !.cols = IxCols(h, @), !.ref = IF @ = 0 THEN << >> ELSE << Refers(h, h[@]) >>]
    [] x.kind = "ref" -> [x EXCEPT !.cols = IxCols(h, @)]
    [] OTHER -> x
Views(h) == [ o \in 1..Len(h) |-> View(h, o) ]
=============================================================================
