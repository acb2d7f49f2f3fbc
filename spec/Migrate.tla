------------------------------ MODULE Migrate -------------------------------
(* Migrations as a machine: a database that holds the old schema, and a       *)
(* planner that issues statements, phase by phase, in any order within a      *)
(* phase. TLC runs it on every pair of schemas of a small universe; harnesses *)
(* run the real diff on the same pairs.                                       *)
EXTENDS Migration, Json
CONSTANTS Universe,   \* "columns", "keys", "morekeys", "both", "tables", "attributes", "types", "indexes", "references", "flags", "keyed"
          Careless,   \* "" or the mistake that the planner makes
          Report

-----------------------------------------------------------------------------
(* Universes *)
Col(n, typ) == [name |-> n, typ |-> typ, len |-> None, dec |-> None, uns |-> FALSE, zf |-> FALSE, bin |-> FALSE, cs |-> None, co |-> None,
                upd |-> None, nul |-> "none", def |-> None, ai |-> FALSE, uniq |-> FALSE, prim |-> FALSE, key |-> FALSE, com |-> None, vals |-> << >>]
Cs(ns) == [ i \in 1..Len(ns) |-> IdxCol(ns[i]) ]
Key(kind, name, ns) == PlainIdx(kind, IF name = "" THEN None ELSE Some(name), Cs(ns))
Fk(sym, ns, del) == [PlainIdx("FOREIGN", None, Cs(ns)) EXCEPT !.sym = Some(sym),
                     !.ref = Some([t |-> "r", cols |-> Cs(ns), match |-> "none", del |-> del, upd |-> "none"])]
Tab(name, cols, idx) == [name |-> name, temp |-> FALSE, ine |-> FALSE, like |-> None, cols |-> cols, idx |-> idx, opts |-> << >>]

(* sequences without repetition over S *)
Perms(S) == UNION { { f \in [1..k -> S] : \A i, j \in 1..k : i # j => f[i] # f[j] } : k \in 1..Cardinality(S) }
ColSeqs(names, types) == UNION { { [ i \in 1..Len(p) |-> Col(p[i], ty[i]) ] : ty \in [1..Len(p) -> types] } : p \in Perms(names) }

(* at most one of each group of keys *)
Pick(group) == {<< >>} \cup { << x >> : x \in group }
RECURSIVE Picks(_)
Picks(groups) == IF groups = << >> THEN {<< >>} ELSE { x \o y : x \in Pick(Head(groups)), y \in Picks(Tail(groups)) }
Fits(cols, idx) == \A i \in 1..Len(idx) : IdxColNames(idx[i]) \subseteq { cols[j].name : j \in 1..Len(cols) }

AB == << Col("a", "INT"), Col("b", "INT") >>
KeyTables ==
  { Tab("t", AB, x) : x \in Picks(<< {Key("PRIMARY", "", << "a" >>)},
                                     {Key("NORMAL", "i", << "a" >>), Key("UNIQUE", "i", << "a" >>), Key("NORMAL", "i", << "a", "b" >>)},
                                     {Key("NORMAL", "f", << "b" >>)},
                                     {Fk("f", << "a" >>, "none"), Fk("f", << "a" >>, "cascade")} >>) }
MoreKeyTables ==
  { Tab("t", AB, x) : x \in Picks(<< {Key("PRIMARY", "", << "a" >>), Key("PRIMARY", "", << "b", "a" >>)},
                                     {Key("NORMAL", "i", << "a" >>), Key("UNIQUE", "i", << "a" >>), Key("NORMAL", "i", << "b" >>), Key("NORMAL", "i", << "a", "b" >>)},
                                     {Key("NORMAL", "f", << "b" >>), Key("UNIQUE", "f", << "a" >>)},
                                     {Fk("f", << "a" >>, "none"), Fk("f", << "a" >>, "cascade"), Fk("f", << "b" >>, "none")},
                                     {Fk("g", << "a" >>, "none")} >>) }
BothTables ==
  { t \in { Tab("t", c, x) : c \in ColSeqs({"a", "b"}, {"INT", "BIGINT"}),
                             x \in Picks(<< {Key("PRIMARY", "", << "a" >>)}, {Key("NORMAL", "i", << "b" >>), Key("NORMAL", "i", << "a", "b" >>)},
                                            {Fk("f", << "a" >>, "none")} >>) } :
      Fits(t.cols, t.idx) /\ \A i \in 1..Len(t.cols) : t.cols[i].name = "b" => t.cols[i].typ = "INT" }
Sized(name) == { Tab(name, c, << >>) : c \in {<< Col("a", "INT") >>, << Col("a", "BIGINT") >>, << Col("a", "INT"), Col("b", "INT") >>} }
              \cup { Tab(name, << Col("b", "INT") >>, << Key("NORMAL", "i", << "b" >>) >>) }
One(S) == { << t >> : t \in S }
(* Attributes: a base column, and what may be different *)
D(v) == Some([v |-> v, q |-> FALSE])
Q(v) == Some([v |-> v, q |-> TRUE])
Nulls(c) == { [c EXCEPT !.nul = x] : x \in {"none", "null", "notnull"} }
Defs(c, vs) == { [c EXCEPT !.def = x] : x \in {None} \cup vs }
Coms(c) == { [c EXCEPT !.com = x] : x \in {None, Some(""), Some("x"), Some("y")} }
Lens(c, ls) == { [c EXCEPT !.len = x] : x \in ls }
Every(c, defs) == Nulls(c) \cup Defs(c, defs) \cup Coms(c) \cup { [y EXCEPT !.nul = "notnull"] : y \in Defs(c, defs \ {D("NULL")}) }
Num(c) == { [c EXCEPT !.uns = TRUE], [c EXCEPT !.zf = TRUE], [c EXCEPT !.uns = TRUE, !.zf = TRUE] }
Str(c) == { [c EXCEPT !.bin = TRUE], [c EXCEPT !.cs = Some("utf8")], [c EXCEPT !.cs = Some("latin1")], [c EXCEPT !.co = Some("utf8_bin")],
            [c EXCEPT !.co = Some("latin1_bin")], [c EXCEPT !.cs = Some("utf8"), !.co = Some("utf8_bin")] }
Valued(c) == { [c EXCEPT !.vals = v] : v \in {<< "x" >>, << "x", "y" >>, << "y", "x" >>, << "X" >>, << "x,y" >>, << "" >>} }
Upds(c) == { [c EXCEPT !.upd = x] : x \in {Some("CURRENT_TIMESTAMP"), Some("CURRENT_TIMESTAMP(3)")} }
Texts == {Q("NULL"), D("NULL"), Q(""), Q("x"), Q("X"), Q("1"), D("1"), Q("TRUE")}
Families == <<
  LET c == Col("a", "INT") IN
    Every(c, {D("1"), Q("1"), D("0"), D("10"), D("TRUE"), D("FALSE"), D("NULL"), Q("NULL")}) \cup Num(c)
    \cup Lens(c, {Some("5"), Some("11"), Some("10")}) \cup {[c EXCEPT !.ai = TRUE], [c EXCEPT !.ai = TRUE, !.nul = "notnull"]},
  LET c == [Col("a", "VARCHAR") EXCEPT !.len = Some("20")] IN Every(c, Texts) \cup Str(c) \cup Lens(c, {Some("21"), Some("2")}),
  LET c == Col("a", "TEXT") IN Every(c, {Q("NULL"), D("NULL"), Q("")}) \cup Str(c) \cup Lens(c, {Some("20")}),
  LET c == Col("a", "DECIMAL") IN
    Every(c, {D("1.0"), Q("1.0"), D("1.00"), D("1"), D("-1"), D("1E3"), D("NULL")}) \cup Num(c)
    \cup Lens(c, {Some("10"), Some("5")}) \cup { [c EXCEPT !.len = Some("10"), !.dec = Some(x)] : x \in {"0", "2"} },
  LET c == Col("a", "TIMESTAMP") IN
    Every(c, {D("CURRENT_TIMESTAMP"), Q("CURRENT_TIMESTAMP"), D("NOW()"), Q("2020-01-01"), D("NULL")}) \cup Lens(c, {Some("0"), Some("3")})
    \cup Upds(c) \cup { [x EXCEPT !.nul = "notnull", !.def = D("CURRENT_TIMESTAMP")] : x \in Upds(c) },
  LET c == [Col("a", "ENUM") EXCEPT !.vals = << "x" >>] IN Every(c, Texts) \cup Str(c) \cup Valued(c),
  LET c == [Col("a", "SET") EXCEPT !.vals = << "x" >>] IN Valued(c) >>
ColTable(c) == Tab("t", << c >>, << >>)
(* keys, and the types that their columns may have *)
KeyedTypes == { [Col("a", ty) EXCEPT !.nul = "notnull", !.len = IF ty = "VARCHAR" THEN Some("20") ELSE None] : ty \in {"INT", "TEXT", "VARCHAR", "BLOB", "JSON"} }
KeyedTables ==
  { t \in { Tab("t", << a >> \o b, x) : a \in KeyedTypes, b \in {<< >>, << [Col("b", "INT") EXCEPT !.nul = "notnull"] >>, << Col("b", "TEXT") >>},
             x \in Picks(<< { PlainIdx(k, IF k = "PRIMARY" THEN None ELSE Some("i"), << [n |-> n, len |-> l, dir |-> "none"] >>) :
                                 k \in {"PRIMARY", "NORMAL", "FULLTEXT"}, n \in {"a", "b"}, l \in {None, Some("5")} } >>) } :
      Fits(t.cols, t.idx) /\ TypeProblems(t) = {} /\ \A i \in 1..Len(t.idx) : t.idx[i].kind = "FULLTEXT" => t.idx[i].cols[1].len = None }
(* columns that may be NULL or not, the one that counts up, and the keys that mind *)
NullTables ==
  { t \in { Tab("t", << [Col("a", "INT") EXCEPT !.nul = x, !.ai = (auto = "a")], [Col("b", "INT") EXCEPT !.nul = y, !.ai = (auto = "b")] >>, k) :
              x \in {"null", "notnull"}, y \in {"notnull"}, auto \in {"", "a", "b"},
              k \in { << Key("NORMAL", "j", << "b" >>) >> \o k : k \in Picks(<< {Key("PRIMARY", "", << "a" >>), Key("PRIMARY", "", << "b", "a" >>)}, {Key("NORMAL", "i", << "a" >>)},
                                                                             {Fk("f", << "a" >>, "setnull"), Fk("f", << "a" >>, "cascade")} >>) } } : TypeProblems(t) = {} }
  \cup { Tab("t", << [Col("a", ty) EXCEPT !.nul = x] >>, k) : ty \in {"GEOMETRY", "INT"}, x \in {"null", "notnull"}, k \in {<< >>} }
  \cup { Tab("t", << [Col("a", "GEOMETRY") EXCEPT !.nul = "notnull"] >>, << Key("SPATIAL", "s", << "a" >>) >>) }
Types == { [Col("a", ty) EXCEPT !.len = IF ty \in {"VARCHAR", "VARBINARY"} THEN Some("1") ELSE None, !.vals = IF ty \in {"ENUM", "SET"} THEN << "x" >> ELSE << >>] :
             ty \in NumericTypes \cup BlobTypes \cup {"BIT", "DATE", "TIME", "TIMESTAMP", "DATETIME", "YEAR", "CHAR", "VARCHAR", "BINARY", "VARBINARY",
                                                      "ENUM", "SET", "JSON", "GEOMETRY"} }
         \cup { [Col("a", ty) EXCEPT !.uns = TRUE] : ty \in {"TINYINT", "SMALLINT", "MEDIUMINT", "INT", "BIGINT", "DECIMAL", "FLOAT"} }
         \cup { [Col("a", ty) EXCEPT !.len = Some("1")] : ty \in {"BIT", "TINYINT", "CHAR", "BINARY", "BLOB", "TEXT"} }
(* indexes *)
Text2 == << [Col("a", "VARCHAR") EXCEPT !.len = Some("20")], Col("b", "INT") >>
P(n, l, d) == [n |-> n, len |-> l, dir |-> d]
Lists == { << P("a", None, "none") >>, << P("b", None, "none") >>, << P("a", None, "none"), P("b", None, "none") >>, << P("b", None, "none"), P("a", None, "none") >>,
           << P("a", Some("5"), "none") >>, << P("a", Some("6"), "none") >>, << P("a", None, "desc") >>, << P("a", None, "asc") >>,
           << P("a", Some("5"), "desc") >>, << P("a", Some("5"), "none"), P("b", None, "desc") >> }
IndexVariants ==
  { PlainIdx(k, Some("i"), l) : k \in {"NORMAL", "UNIQUE"}, l \in Lists }
  \cup { PlainIdx(k, Some("i"), l) : k \in {"FULLTEXT"}, l \in { l \in Lists : Len(l) = 1 } } \cup { PlainIdx("PRIMARY", None, l) : l \in Lists }
  \cup { PlainIdx("SPATIAL", Some("i"), << P("a", None, "none") >>), PlainIdx("NORMAL", Some("j"), << P("a", None, "none") >>) }
  \cup { [PlainIdx(k, IF k = "PRIMARY" THEN None ELSE Some("i"), << P("a", None, "none") >>) EXCEPT !.typ = ty] :
            k \in {"NORMAL", "UNIQUE", "PRIMARY"}, ty \in {"btree", "hash"} }
  \cup { [PlainIdx("FULLTEXT", Some("i"), << P("a", None, "none") >>) EXCEPT !.opts = << [k |-> "WITH PARSER", v |-> v] >>] : v \in {"ngram", "mecab"} }
  \cup { [PlainIdx("UNIQUE", n, << P("a", None, "none") >>) EXCEPT !.sym = Some("s")] : n \in {None, Some("i")} }
(* foreign keys *)
Ref(t, cols, m, d, u) == Some([t |-> t, cols |-> cols, match |-> m, del |-> d, upd |-> u])
Actions == {"none", "restrict", "cascade", "setnull", "noaction"}
FkBase == [PlainIdx("FOREIGN", None, Cs(<< "a" >>)) EXCEPT !.sym = Some("f"), !.ref = Ref("r", Cs(<< "a" >>), "none", "none", "none")]
FkVariants ==
  { [FkBase EXCEPT !.ref = Ref("r", Cs(<< "a" >>), m, d, u)] : m \in {"none", "full", "partial", "simple"}, d \in Actions, u \in Actions }
FkOthers ==
  { [FkBase EXCEPT !.ref = Ref(t, l, "none", "none", "none")] : t \in {"r", "s"}, l \in { l \in Lists : Len(l) = 1 } }
  \cup { [FkBase EXCEPT !.sym = Some("g")], [FkBase EXCEPT !.name = Some("n")], [FkBase EXCEPT !.cols = Cs(<< "b" >>)],
         [FkBase EXCEPT !.cols = Cs(<< "a", "b" >>), !.ref[1].cols = Cs(<< "a", "b" >>)], [FkBase EXCEPT !.cols = Cs(<< "a", "b" >>), !.ref[1].cols = Cs(<< "b", "a" >>)],
         [FkBase EXCEPT !.cols = Cs(<< "b", "a" >>), !.ref[1].cols = Cs(<< "a", "b" >>)] }
KeyTable(x) == Tab("t", Text2, << x >>)
FkTable(x) == KeyTable(x)
(* the parts in which the references of two foreign keys are different *)
Apart(x, y) == Cardinality({ k \in {"match", "del", "upd"} : x.ref[1][k] # y.ref[1][k] })
O(k, v, q) == [k |-> k, v |-> v, q |-> q]
FlagTables == { [Tab("t", AB, << >>) EXCEPT !.temp = x, !.ine = y, !.opts = o] :
                  x \in BOOLEAN, y \in BOOLEAN,
                  o \in {<< >>, << O("ENGINE", "InnoDB", FALSE) >>, << O("ENGINE", "MyISAM", FALSE) >>, << O("COMMENT", "x", TRUE), O("ENGINE", "InnoDB", FALSE) >>,
                         << O("ENGINE", "InnoDB", FALSE), O("COMMENT", "x", TRUE) >>, << O("AUTO_INCREMENT", "5", FALSE) >>,
                         << O("DEFAULT CHARACTER SET", "utf8", FALSE), O("DEFAULT COLLATE", "utf8_bin", FALSE) >>} }

(* an index supports every foreign key *)
Sound(db) == \A i \in 1..Len(db) : \A j \in 1..Len(db[i].idx) :
  IsFK(db[i].idx[j]) => \E k \in 1..Len(db[i].idx) : Supports(db[i].idx[k], db[i].idx[j])
AllSchemas ==
  CASE Universe = "columns" -> One({ Tab("t", c, << >>) : c \in ColSeqs({"a", "b", "c"}, {"INT", "BIGINT"}) })
    [] Universe = "keys" -> One(KeyTables)
    [] Universe = "morekeys" -> One(MoreKeyTables)
    [] Universe = "both" -> One(BothTables)
    [] Universe = "keyed" -> One(KeyedTables)
    [] Universe = "nulls" -> One(NullTables)
    [] Universe = "tables" -> {<< >>} \cup One(Sized("t")) \cup One(Sized("u")) \cup { << x, y >> : x \in Sized("t"), y \in Sized("u") }
                              \cup { << y, x >> : x \in Sized("t"), y \in Sized("u") }

Schemas == { s \in AllSchemas : Sound(Load(s).db) }
Made(S) == S \cup {<< >>}
Square(S) == { << o, n >> : o \in Made(One(S)), n \in One(S) }
Pairs ==
  CASE Universe = "attributes" -> UNION { Square({ ColTable(c) : c \in Families[i] }) : i \in 1..Len(Families) }
    [] Universe = "types" -> Square({ ColTable(c) : c \in Types })
    [] Universe = "indexes" -> Square({ KeyTable(x) : x \in IndexVariants })
    [] Universe = "references" -> { << << FkTable(x[1]) >>, << FkTable(x[2]) >> >> : x \in { x \in FkVariants \X FkVariants : Apart(x[1], x[2]) <= 1 } }
                                  \cup Square({ FkTable(x) : x \in FkOthers })
                                  \cup { << << >>, << FkTable(x) >> >> : x \in FkVariants }
    [] Universe = "flags" -> Square(FlagTables)
    [] OTHER -> Schemas \X Schemas

-----------------------------------------------------------------------------
(* What there is to do between the tables a and b, phase by phase *)
Op(op, t, n, x) == [op |-> op, t |-> t, n |-> n, x |-> x]
Gone(a, b)  == { x \in { a.idx[i] : i \in 1..Len(a.idx) } : MeanIdx(x) \notin Meanings(b) }
Fresh(a, b) == Gone(b, a)
DropOp(t, x) == Op(IF IsPK(x) THEN "droppk" ELSE IF IsFK(x) THEN "dropfk" ELSE "dropidx", t, IF IsPK(x) THEN "" ELSE Known(x)[1], << >>)
Todo(a, b, phase) ==
  LET t == a.name IN
  CASE phase = "dropfk"  -> { DropOp(t, x) : x \in { x \in Gone(a, b) : IsFK(x) \/ (Careless = "pk with fks" /\ IsPK(x)) } }
    [] phase = "dropidx" -> { DropOp(t, x) : x \in { x \in Gone(a, b) : ~IsFK(x) /\ ~(Careless = "pk with fks" /\ IsPK(x)) } }
    [] phase = "dropcol" -> { Op("dropcol", t, n, << >>) : n \in ColNames(a) \ ColNames(b) }
    [] phase = "addcol"  -> { Op("addcol", t, "", << ColNamed(b, n), Some(Before(b, n)) >>) : n \in ColNames(b) \ ColNames(a) }
    [] phase = "chgcol"  -> { Op("chgcol", t, n, << ColNamed(b, n), << >> >>) : n \in { n \in ColNames(a) \cap ColNames(b) : ColNamed(a, n) # ColNamed(b, n) } }
    [] phase = "addidx"  -> { Op("addidx", t, "", << x >>) : x \in { x \in Fresh(a, b) : ~IsFK(x) } }
    [] phase = "addfk"   -> { Op("addidx", t, "", << x >>) : x \in { x \in Fresh(a, b) : IsFK(x) } }
Usual    == << "dropfk", "dropidx", "dropcol", "addcol", "chgcol", "addidx", "addfk" >>
NoneLeft == << "dropfk", "dropidx", "addcol", "dropcol", "chgcol", "addidx", "addfk" >>
Phases(a, b) ==
  CASE Careless = "fks late" -> << "dropidx", "dropfk", "dropcol", "addcol", "chgcol", "addidx", "addfk" >>
    [] Careless = "indexes first" -> << "dropfk", "dropidx", "addidx", "addfk", "dropcol", "addcol", "chgcol" >>
    [] Careless = "indexes before types" -> << "dropfk", "dropidx", "dropcol", "addcol", "addidx", "addfk", "chgcol" >>
    [] Careless = "types first" -> << "dropfk", "chgcol", "dropidx", "dropcol", "addcol", "addidx", "addfk" >>
    [] Careless = "columns first" -> << "dropcol", "dropfk", "dropidx", "addcol", "chgcol", "addidx", "addfk" >>
    [] Careless = "fks with indexes" -> << "dropfk", "dropidx", "dropcol", "addcol", "chgcol", "addfk", "addidx" >>
    [] ColNames(a) \cap ColNames(b) = {} /\ Careless # "drops all" -> NoneLeft
    [] OTHER -> Usual

VARIABLES pair, db, at, todo, why, wrong
vars == << pair, db, at, todo, why, wrong >>
(* at[t]: the phase in which table t is (0: not yet), todo[t]: what is left in it *)
Old == pair[1]
New == pair[2]
Init == /\ \E p \in Pairs : /\ pair = << Load(p[1]).db, Load(p[2]).db >>
                              /\ (~Report \/ PrintT("@@" \o ToJson([old |-> p[1], new |-> p[2]])))
        /\ db = pair[1] /\ why = "" /\ wrong = ""
        /\ at = [ t \in Shared(pair[1], pair[2]) |-> 0 ]
        /\ todo = [ t \in Shared(pair[1], pair[2]) |-> {} ]

Issue(op) == LET r == TypedExec(db, op, Tolerated(Old, New)) IN
  /\ wrong' = Touches(Old, New, << op >>, 1)
  /\ IF r.ok THEN db' = r.db /\ why' = "" ELSE db' = db /\ why' = r.why

Outer == Names(db) \ Names(New)
Missing == Names(New) \ Names(db)
Drop == \E t \in Outer : Issue(Op("drop", t, "", << >>)) /\ UNCHANGED << pair, at, todo >>
Make == /\ Outer = {} /\ \E i \in 1..Len(New) : /\ New[i].name \in Missing /\ \A j \in 1..(i - 1) : New[j].name \notin Missing
                                                /\ Issue(CreateOp(New[i])) /\ UNCHANGED << pair, at, todo >>
A(t) == TableOf(Old, t)
B(t) == TableOf(New, t)
Turn(t) == Outer = {} /\ Missing = {} /\ \A u \in DOMAIN at : u # t => at[u] = 0 \/ at[u] > Len(Phases(A(u), B(u)))
NextPhase(t) == /\ Turn(t) /\ todo[t] = {} /\ at[t] <= Len(Phases(A(t), B(t)))
                /\ at' = [at EXCEPT ![t] = @ + 1]
                /\ todo' = [todo EXCEPT ![t] = IF at[t] = Len(Phases(A(t), B(t))) THEN {} ELSE Todo(A(t), B(t), Phases(A(t), B(t))[at[t] + 1])]
                /\ UNCHANGED << pair, db, why, wrong >>
Ready(op) == IF op.op = "chgcol" THEN Careless = "auto in any order" \/ ~op.x[1].ai \/ \A o2 \in todo[op.t] : o2.op # "chgcol" \/ o2.x[1].ai ELSE
             IF op.op # "addcol" THEN TRUE ELSE IF Careless = "any position" THEN TRUE ELSE IF op.x[2] = Some("") THEN TRUE
             ELSE op.x[2][1] \in ColNames(TableOf(db, op.t))
Alters(t) == Turn(t) /\ \E op \in todo[t] : Ready(op) /\ Issue(op) /\ todo' = [todo EXCEPT ![t] = @ \ {op}] /\ UNCHANGED << pair, at >>
Next == why = "" /\ (Drop \/ Make \/ \E t \in DOMAIN at : NextPhase(t) \/ Alters(t))
Spec == Init /\ [][Next]_vars

Finished == Outer = {} /\ Missing = {} /\ \A t \in DOMAIN at : at[t] > Len(Phases(A(t), B(t)))
(* C02 *)
Excused == why = "index needed by foreign key" /\ \E t \in Shared(Old, New) : \E i \in 1..Len(A(t).idx) :
             /\ IsFK(A(t).idx[i]) /\ MeanIdx(A(t).idx[i]) \in Meanings(B(t))
             /\ \E j \in 1..Len(B(t).idx) : Supports(B(t).idx[j], A(t).idx[i])
             /\ \A j \in 1..Len(B(t).idx) : Supports(B(t).idx[j], A(t).idx[i]) => MeanIdx(B(t).idx[j]) \notin Meanings(A(t))
NeverRefused == why = "" \/ Excused
(* C01 *)
Reaches == Finished => /\ Names(db) = Names(New) /\ Len(db) = Len(New)
                       /\ \A t \in Names(New) : IF t \in Shared(Old, New) THEN Migrated(TableOf(db, t), B(t)) ELSE Created(TableOf(db, t), B(t))
(* no dead end *)
Goes == ENABLED Next \/ why # "" \/ Finished
(* C03 *)
Leaves == wrong = ""
(* C05 *)
Places == Finished => \A t \in Shared(Old, New) : KeepsOrder(A(t), B(t)) => Order(TableOf(db, t)) = Order(B(t))
=============================================================================
