---------------------------- MODULE ObjectModel -----------------------------
(* Every short history of calls on a few objects and their clones. Harnesses  *)
(* replay them on real objects.                                               *)
EXTENDS Objects, TLC, Json, FiniteSets
CONSTANTS Scenario, Depth, Most, Shared

Heap0 ==
  CASE Scenario = "column" -> << NewColumn("c"), NewLength("5"), NewLength("10") >>
    [] Scenario = "index" -> << NewIndex("FOREIGN"), NewIndexColumn("a"), NewIndexColumn("b"), NewReference >>
    [] Scenario = "lists" -> << NewIndex("FULLTEXT"), NewIndexColumn("a"), NewIndexColumn("b") >>
    [] Scenario = "table" -> << NewTable("t"), NewDatabase("d") >>
S(o, a, v) == [op |-> "set", o |-> o, a |-> a, v |-> v]
A(o, a, v) == [op |-> "add", o |-> o, a |-> a, v |-> v]
C(o) == [op |-> "clone", o |-> o]
T(n) == "v" \o ToString(n)
Opt(n) == [k |-> "k", v |-> T(n), q |-> FALSE]
Calls(h, o, n) ==
  CASE h[o].kind = "col" ->
         { S(o, "typ", t) : t \in {"INT", "ENUM"} } \cup { S(o, "len", l) : l \in {2, 3} } \cup { S(o, a, b) : a \in {"uns", "zf", "bin", "ai", "uniq", "prim", "key"}, b \in BOOLEAN }
         \cup { S(o, a, << T(n) >>) : a \in {"cs", "co", "upd", "com"} } \cup { S(o, "nul", v) : v \in {"none", "null", "notnull"} }
         \cup { S(o, "def", << [v |-> T(n), q |-> q] >>) : q \in BOOLEAN } \cup { S(o, a, << T(n), "x" >>) : a \in {"enum", "set"} }
         \cup { S(o, "tid", T(n)), C(o) }
    [] h[o].kind = "len" -> { S(o, "dec", << T(n) >>) }
    [] h[o].kind = "ixcol" -> IF Scenario = "lists" THEN {} ELSE { S(o, "len", << T(n) >>) } \cup { S(o, "dir", d) : d \in {"none", "asc", "desc"} }
    [] h[o].kind = "ref" -> { S(o, "t", T(n)) } \cup { A(o, "cols", c) : c \in {2, 3} } \cup { S(o, "match", m) : m \in {"none", "full", "partial", "simple"} }
                            \cup { S(o, a, v) : a \in {"del", "upd"}, v \in {"restrict", "setnull"} }
    [] h[o].kind = "idx" -> IF Scenario = "lists"
         THEN { A(o, "cols", IF n % 2 = 0 THEN 2 ELSE 3), A(o, "opts", Opt(n)), C(o) }
         ELSE { S(o, a, << T(n) >>) : a \in {"sym", "name"} } \cup { S(o, "typ", v) : v \in {"none", "btree", "hash"} }
              \cup { A(o, "cols", c) : c \in {2, 3} } \cup { A(o, "opts", Opt(n)), S(o, "ref", 4), C(o) }
    [] h[o].kind = "tab" -> { S(o, a, b) : a \in {"temp", "ine"}, b \in BOOLEAN } \cup { S(o, "like", << T(n) >>) }
    [] h[o].kind = "db" -> { S(o, "ine", b) : b \in BOOLEAN }

VARIABLES heap, path
Init == heap = Heap0 /\ path = << >>
Next == /\ Len(path) < Depth
        /\ \E o \in 1..Len(heap) : \E e \in Calls(heap, o, Len(path) + 1) :
             /\ e.op = "clone" => Len(heap) < Most
             /\ heap' = (IF Shared /\ e.op = "add" THEN [ i \in 1..Len(heap) |-> IF heap[i].kind = "idx" THEN [heap[i] EXCEPT ![e.a] = Append(@, e.v)] ELSE heap[i] ]
                         ELSE Do(heap, e))
             /\ path' = Append(path, e)
Spec == Init /\ [][Next]_<< heap, path >>

(* A call changes what one object shows, besides the objects that name it; a  *)
(* clone shows what its original shows                                        *)
Names(h, p) == (IF h[p].kind = "col" /\ h[p].len # 0 THEN {h[p].len} ELSE {})
               \cup (IF h[p].kind = "idx" /\ h[p].ref # 0 THEN {h[p].ref} ELSE {})
               \cup (IF h[p].kind \in {"idx", "ref"} THEN { h[p].cols[i] : i \in 1..Len(h[p].cols) } ELSE {})
Sees(h, p, o) == o = p \/ \E q \in Names(h, p) : o = q \/ o \in Names(h, q)
Apart == [][ LET e == path'[Len(path')] IN
             IF e.op = "clone" THEN View(heap', Len(heap')) = View(heap, e.o) /\ \A p \in 1..Len(heap) : heap'[p] = heap[p]
             ELSE \A p \in 1..Len(heap) : ~Sees(heap', p, e.o) => View(heap', p) = View(heap, p) ]_<< heap, path >>
Keeps == [][ LET e == path'[Len(path')] IN
             CASE e.op = "set" -> heap'[e.o][e.a] = e.v
               [] e.op = "add" -> heap'[e.o][e.a] = Append(heap[e.o][e.a], e.v)
               [] OTHER -> TRUE ]_<< heap, path >>
Report == Len(path) = 0 \/ PrintT("@@" \o ToJson([path |-> path]))
Start == Len(path) # 0 \/ PrintT("@@" \o ToJson([heap |-> heap]))
=============================================================================
