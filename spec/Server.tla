------------------------------- MODULE Server -------------------------------
(* A MySQL server, as far as schemas go: a database is a sequence of          *)
(* canonical tables, and Exec(db, op) is the effect of one statement (as read *)
(* by Grammar in the "script" dialect), or a refusal.                         *)
EXTENDS Canon, FiniteSets, TLC

Yes(db)    == [ok |-> TRUE, why |-> "", db |-> db]
No(db, why) == [ok |-> FALSE, why |-> why, db |-> db]

Names(db) == { db[i].name : i \in 1..Len(db) }
Pos(db, name) == CHOOSE i \in 1..Len(db) : db[i].name = name
TableOf(db, name) == db[Pos(db, name)]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o << x >> \o SubSeq(s, i, Len(s))

ColNames(t) == { t.cols[i].name : i \in 1..Len(t.cols) }
ColPos(t, n) == CHOOSE i \in 1..Len(t.cols) : t.cols[i].name = n
IdxColNames(x) == { x.cols[i].n : i \in 1..Len(x.cols) }
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

IsFK(x) == x.kind = "FOREIGN"
IsPK(x) == x.kind = "PRIMARY"
(* The name by which an index (not the primary key) or a foreign key is known *)
Known(x) == IF IsFK(x) THEN (IF x.sym # None THEN x.sym ELSE x.name)
                       ELSE (IF x.name # None THEN x.name ELSE x.sym)

Where(t, P(_)) == { i \in 1..Len(t.idx) : P(t.idx[i]) }
IndexNamed(t, n) == Where(t, LAMBDA x : ~IsFK(x) /\ ~IsPK(x) /\ Known(x) = Some(n))
FKNamed(t, n)    == Where(t, LAMBDA x : IsFK(x) /\ Known(x) = Some(n))

(* Index x can be looked up by the columns of foreign key f *)
Supports(x, f) ==
  /\ x.kind \in {"PRIMARY", "UNIQUE", "NORMAL"}
  /\ Len(x.cols) >= Len(f.cols)
  /\ \A i \in 1..Len(f.cols) : x.cols[i].n = f.cols[i].n /\ x.cols[i].len = None
NeededByFK(t, i) ==
  \E j \in 1..Len(t.idx) :
    /\ IsFK(t.idx[j]) /\ t.idx[j].sym # None
    /\ Supports(t.idx[i], t.idx[j])
    /\ ~ \E k \in 1..Len(t.idx) : k # i /\ Supports(t.idx[k], t.idx[j])

(* Why x cannot be an additional index of t, or "" *)
IndexProblem(t, x) ==
  CASE Len(x.cols) = 0 -> "index without columns"
    [] ~ (IdxColNames(x) \subseteq ColNames(t)) -> "key column does not exist"
    [] ~ Distinct([ i \in 1..Len(x.cols) |-> x.cols[i].n ]) -> "duplicate column in key"
    [] IsPK(x) /\ Where(t, IsPK) # {} -> "multiple primary keys"
    [] IsFK(x) /\ x.ref = None -> "foreign key without reference"
    [] IsFK(x) /\ Len(x.ref[1].cols) # Len(x.cols) -> "wrong number of referenced columns"
    [] IsFK(x) /\ Known(x) # None /\ FKNamed(t, Known(x)[1]) # {} -> "duplicate foreign key name"
    [] ~IsFK(x) /\ ~IsPK(x) /\ Known(x) # None /\ IndexNamed(t, Known(x)[1]) # {} -> "duplicate index name"
    [] OTHER -> ""

RECURSIVE FirstProblem(_, _)
FirstProblem(t, i) ==
  IF i > Len(t.idx) THEN ""
  ELSE LET p == IndexProblem([t EXCEPT !.idx = SubSeq(t.idx, 1, i - 1)], t.idx[i])
       IN IF p # "" THEN p ELSE FirstProblem(t, i + 1)

(* Why a (canonical) table cannot be created, or "" *)
TableProblem(t) ==
  CASE Len(t.cols) = 0 -> "table without columns"
    [] ~ Distinct([ i \in 1..Len(t.cols) |-> t.cols[i].name ]) -> "duplicate column name"
    [] OTHER -> FirstProblem(t, 1)

Put(db, t) == [db EXCEPT ![Pos(db, t.name)] = t]

(* CREATE TABLE a LIKE b copies everything but the foreign keys *)
LikeCopy(db, t) ==
  LET b == TableOf(db, t.like[1]) IN
  [b EXCEPT !.name = t.name, !.temp = t.temp, !.ine = t.ine, !.like = None,
            !.idx = SelectSeq(b.idx, LAMBDA x : ~IsFK(x))]

Create(db, raw) ==
  IF raw.name \in Names(db)
  THEN IF raw.ine THEN Yes(db) ELSE No(db, "table exists")
  ELSE IF raw.like # None
  THEN IF raw.like[1] \in Names(db) THEN Yes(Append(db, LikeCopy(db, raw))) ELSE No(db, "table does not exist")
  ELSE LET t == CanonTable(raw) p == TableProblem(t)
       IN IF p # "" THEN No(db, p) ELSE Yes(Append(db, t))

(* A column definition in ALTER TABLE may declare keys, too *)
RECURSIVE AddAll(_, _)
AddAll(t, xs) ==
  IF xs = << >> THEN [p |-> "", t |-> t]
  ELSE LET p == IndexProblem(t, Head(xs))
       IN IF p # "" THEN [p |-> p, t |-> t] ELSE AddAll([t EXCEPT !.idx = Append(@, Head(xs))], Tail(xs))

PutColumn(db, t, cols, c) ==
  LET r == AddAll([t EXCEPT !.cols = cols], InlineKeys(c))
  IN IF r.p # "" THEN No(db, r.p) ELSE Yes(Put(db, r.t))

(* at: << >> anywhere, <<"">> first, <<n>> after n *)
Place(cols, c, at) ==
  IF at = << >> THEN Append(cols, c)
  ELSE IF at[1] = "" THEN << c >> \o cols
  ELSE LET i == CHOOSE i \in 1..Len(cols) : cols[i].name = at[1] IN Insert(cols, i + 1, c)

NamesOf(cols) == { cols[i].name : i \in 1..Len(cols) }
BadPlace(cols, at) == at # << >> /\ at[1] # "" /\ at[1] \notin NamesOf(cols)

AddColumn(db, t, c, at) ==
  CASE c.name \in ColNames(t) -> No(db, "column exists")
    [] BadPlace(t.cols, at) -> No(db, "AFTER a column that does not exist")
    [] OTHER -> PutColumn(db, t, Place(t.cols, StripKeys(CanonCol(c)), at), c)

RenameIn(cols, old, new) == [ i \in 1..Len(cols) |-> IF cols[i].n = old THEN [cols[i] EXCEPT !.n = new] ELSE cols[i] ]

ChangeColumn(db, t0, old, c, at) ==
  LET s == StripKeys(CanonCol(c)) IN
  CASE old \notin ColNames(t0) -> No(db, "column does not exist")
    [] c.name # old /\ c.name \in ColNames(t0) -> No(db, "column exists")
    [] OTHER ->
         LET t == [t0 EXCEPT !.idx = [ i \in 1..Len(t0.idx) |-> [t0.idx[i] EXCEPT !.cols = RenameIn(@, old, c.name)] ]]
             i == ColPos(t, old)
             rest == Without(t.cols, i)
         IN IF at = << >> THEN PutColumn(db, t, [t.cols EXCEPT ![i] = s], c)
            ELSE IF BadPlace(rest, at) THEN No(db, "AFTER a column that does not exist")
            ELSE PutColumn(db, t, Place(rest, s, at), c)

DropColumn(db, t, n) ==
  CASE n \notin ColNames(t) -> No(db, "column does not exist")
    [] Len(t.cols) = 1 -> No(db, "last column")
    [] \E i \in 1..Len(t.idx) : IsFK(t.idx[i]) /\ n \in IdxColNames(t.idx[i]) -> No(db, "column needed by foreign key")
    [] OTHER ->
         LET strip(x) == [x EXCEPT !.cols = SelectSeq(@, LAMBDA c : c.n # n)]
             idx == [ i \in 1..Len(t.idx) |-> strip(t.idx[i]) ]
         IN Yes(Put(db, [t EXCEPT !.cols = Without(@, ColPos(t, n)),
                                  !.idx = SelectSeq(idx, LAMBDA x : x.cols # << >>)]))

AddIndex(db, t, x) ==
  LET p == IndexProblem(t, x) IN
  IF p # "" THEN No(db, p)
  ELSE Yes(Put(db, [t EXCEPT !.idx = @ \o WithImplicit(<< x >>, IndexNames(t.idx))]))

DropIndexAt(db, t, is, what) ==
  IF is = {} THEN No(db, what \o " does not exist")
  ELSE LET i == CHOOSE i \in is : TRUE
       IN IF ~IsFK(t.idx[i]) /\ NeededByFK(t, i) THEN No(db, "index needed by foreign key")
          ELSE Yes(Put(db, [t EXCEPT !.idx = Without(@, i)]))

Alter(db, op) ==
  IF op.t \notin Names(db) THEN No(db, "table does not exist")
  ELSE LET t == TableOf(db, op.t) IN
  CASE op.op = "addcol"  -> AddColumn(db, t, op.x[1], op.x[2])
    [] op.op = "chgcol"  -> ChangeColumn(db, t, op.n, op.x[1], op.x[2])
    [] op.op = "dropcol" -> DropColumn(db, t, op.n)
    [] op.op = "addidx"  -> AddIndex(db, t, op.x[1])
    [] op.op = "droppk"  -> DropIndexAt(db, t, Where(t, IsPK), "primary key")
    [] op.op = "dropidx" -> DropIndexAt(db, t, IndexNamed(t, op.n), "index")
    [] op.op = "dropfk"  -> DropIndexAt(db, t, FKNamed(t, op.n), "foreign key")

Exec(db, op) ==
  CASE op.op \in {"begin", "commit", "fkchecks"} -> Yes(db)
    [] op.op = "create" -> Create(db, op.x[1])
    [] op.op = "drop" -> IF op.t \in Names(db) THEN Yes(Without(db, Pos(db, op.t))) ELSE No(db, "table does not exist")
    [] OTHER -> Alter(db, op)

RECURSIVE ExecFrom(_, _, _)
ExecFrom(db, ops, i) ==
  IF i > Len(ops) THEN [ok |-> TRUE, why |-> "", db |-> db, at |-> 0]
  ELSE LET r == Exec(db, ops[i])
       IN IF r.ok THEN ExecFrom(r.db, ops, i + 1) ELSE [ok |-> FALSE, why |-> r.why, db |-> db, at |-> i]
ExecAll(db, ops) == ExecFrom(db, ops, 1)

(* What may be in a key depends on the column: a statement that leaves a table *)
(* in which this is not so is refused, unless one of the two schemas has the   *)
(* same problem in this table. A column that both schemas have may not be      *)
(* AUTO_INCREMENT next to another one.                                         *)
TextTypes == {"CHAR", "VARCHAR", "TINYTEXT", "TEXT", "MEDIUMTEXT", "LONGTEXT"}
If(b, why) == IF b THEN {why} ELSE {}
PartProblems(t, x, p) ==
  LET c == t.cols[ColPos(t, p.n)] blob == c.typ \in BlobTypes IN
  CASE x.kind = "FULLTEXT" -> If(c.typ \notin TextTypes, "FULLTEXT index of a column without text")
    [] x.kind = "SPATIAL" -> If(c.typ # "GEOMETRY" \/ c.nul # "notnull", "SPATIAL index of a column that is not GEOMETRY NOT NULL")
    [] x.kind = "FOREIGN" -> If(c.nul = "notnull" /\ x.ref # None /\ "setnull" \in {x.ref[1].del, x.ref[1].upd}, "SET NULL of a column that is NOT NULL")
                             \cup If(blob \/ c.typ = "JSON", "foreign key of a TEXT, BLOB or JSON column")
    [] OTHER ->
         If(x.kind = "PRIMARY" /\ c.nul # "notnull", "a column that may be NULL in the primary key")
         \cup (IF p.len = None THEN If(blob \/ c.typ = "JSON", "TEXT, BLOB or JSON column in a key without a length")
              ELSE If(~ (blob \/ c.typ \in {"CHAR", "VARCHAR", "BINARY", "VARBINARY"}), "a prefix of a column that has none"))
TypeProblems(t) ==
  UNION { UNION { PartProblems(t, t.idx[i], p) : p \in { p \in { t.idx[i].cols[k] : k \in 1..Len(t.idx[i].cols) } : p.n \in ColNames(t) } } : i \in 1..Len(t.idx) }
Autos(t, both) == { c \in ColNames(t) \cap both : t.cols[ColPos(t, c)].ai }
AutoTwice(t, both) == If(Cardinality(Autos(t, both)) > 1, "two AUTO_INCREMENT columns")
(* For each table of both schemas: the columns in both, and the problems that *)
(* do not count                                                               *)
Shared2(a, b) == ColNames(a) \cap ColNames(b)
Tolerated(o, n) ==
  [ x \in Names(o) \cap Names(n) |->
      LET a == TableOf(o, x) b == TableOf(n, x) both == Shared2(a, b) IN
      [both |-> both, what |-> TypeProblems(a) \cup TypeProblems(b) \cup AutoTwice(a, both) \cup AutoTwice(b, both)] ]
TypedExec(db, op, typed) ==
  LET r == Exec(db, op) IN
  IF ~r.ok \/ op.op \notin {"addcol", "chgcol", "addidx"} THEN r
  ELSE IF op.t \notin DOMAIN typed THEN r
  ELSE LET t == TableOf(r.db, op.t)
           p == (TypeProblems(t) \cup AutoTwice(t, typed[op.t].both)) \ typed[op.t].what
       IN IF p = {} THEN r ELSE No(db, CHOOSE x \in p : TRUE)
RECURSIVE TypedFrom(_, _, _, _)
TypedFrom(db, ops, typed, i) ==
  IF i > Len(ops) THEN [ok |-> TRUE, why |-> "", db |-> db, at |-> 0]
  ELSE LET r == TypedExec(db, ops[i], typed)
       IN IF r.ok THEN TypedFrom(r.db, ops, typed, i + 1) ELSE [ok |-> FALSE, why |-> r.why, db |-> db, at |-> i]
TypedExecAll(o, n, ops) == TypedFrom(o, ops, Tolerated(o, n), 1)

(* Rules of a real server that most cases leave out: an AUTO_INCREMENT column *)
(* has to be the first column of an index at all times, and the symbols of    *)
(* foreign keys are unique in a database.                                     *)
AutoProblem(t) ==
  \E i \in 1..Len(t.cols) : t.cols[i].ai /\
    ~ \E j \in 1..Len(t.idx) : ~IsFK(t.idx[j]) /\ t.idx[j].cols[1].n = t.cols[i].name
Symbols(t) == { t.idx[i].sym[1] : i \in { j \in 1..Len(t.idx) : IsFK(t.idx[j]) /\ t.idx[j].sym # None } }
StrictProblem(db) ==
  CASE \E i \in 1..Len(db) : AutoProblem(db[i]) -> "AUTO_INCREMENT column without a key"
    [] \E i, j \in 1..Len(db) : i # j /\ Symbols(db[i]) \cap Symbols(db[j]) # {} -> "duplicate foreign key symbol"
    [] OTHER -> ""
RECURSIVE StrictFrom(_, _, _)
StrictFrom(db, ops, i) ==
  IF i > Len(ops) THEN [ok |-> TRUE, why |-> "", db |-> db, at |-> 0]
  ELSE LET r == Exec(db, ops[i])
           p == IF r.ok THEN StrictProblem(r.db) ELSE r.why
       IN IF p = "" THEN StrictFrom(r.db, ops, i + 1) ELSE [ok |-> FALSE, why |-> p, db |-> db, at |-> i]
StrictExecAll(db, ops) == StrictFrom(db, ops, 1)

(* The database that holds a schema (a sequence of canonical tables) *)
CreateOp(t) == [op |-> "create", t |-> t.name, n |-> "", x |-> << t >>]
Load(schema) == ExecAll(<< >>, [ i \in 1..Len(schema) |-> CreateOp(schema[i]) ])
=============================================================================
