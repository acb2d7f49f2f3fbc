----------------------------- MODULE Migration ------------------------------
(* What the output of a diff has to be. o, n: the two schemas (sequences of   *)
(* canonical tables); ops: the statements of the output.                      *)
EXTENDS Server

TablesOf(s) == { s[i].name : i \in 1..Len(s) }
Shared(o, n) == TablesOf(o) \cap TablesOf(n)
ColsOf(t) == { t.cols[i] : i \in 1..Len(t.cols) }
ColNamed(t, c) == t.cols[ColPos(t, c)]
Meanings(t) == { MeanIdx(t.idx[i]) : i \in 1..Len(t.idx) }
NoTwins(t) == Cardinality(Meanings(t)) = Len(t.idx)

(* The keys of two tables mean the same. An index without a name that is      *)
(* declared twice counts once.                                                *)
SameKeys(a, b) == IF NoTwins(a) /\ NoTwins(b) THEN SameBag(MeanIdxs(a.idx), MeanIdxs(b.idx)) ELSE Meanings(a) = Meanings(b)

(* Two tables are the same, but for the order of columns and for options      *)
Migrated(a, b) == a.name = b.name /\ a.like = b.like /\ ColsOf(a) = ColsOf(b) /\ SameKeys(a, b)
Created(a, b)  == Migrated(a, b) /\ a.cols = b.cols /\ a.opts = b.opts /\ a.temp = b.temp

(* Two schemas declare the same, in whatever order                            *)
SameDecl(a, b) == a.name = b.name /\ a.temp = b.temp /\ a.like = b.like /\ a.cols = b.cols /\ a.opts = b.opts /\ SameKeys(a, b)
Equivalent(o, n) ==
  /\ Len(o) = Len(n) /\ TablesOf(o) = TablesOf(n)
  /\ \A t \in TablesOf(o) : SameDecl(TableOf(o, t), TableOf(n, t))

(* Indexes that nothing but a name could drop *)
Undroppable(o, n) ==
  \E t \in Shared(o, n) : LET a == TableOf(o, t) b == TableOf(n, t) IN
    \E i \in 1..Len(a.idx) :
      /\ ~IsPK(a.idx[i]) /\ Known(a.idx[i]) = None
      /\ MeanIdx(a.idx[i]) \notin Meanings(b)

WhyTable(a, b) ==
  IF ColsOf(a) # ColsOf(b) THEN "columns " \o ToString(<< ColsOf(a) \ ColsOf(b), ColsOf(b) \ ColsOf(a) >>)
  ELSE IF ~SameKeys(a, b) THEN "indexes " \o ToString(<< Meanings(a) \ Meanings(b), Meanings(b) \ Meanings(a) >>)
  ELSE "order of columns, options or flags"

-----------------------------------------------------------------------------
(* A known finding: the only index that supports a foreign key that stays is  *)
(* replaced, which takes an ALTER TABLE of two parts.                         *)
ReplacesSupport(o, n, ops, r) ==
  LET op == ops[r.at] IN
  /\ op.op \in {"dropidx", "droppk"}
  /\ r.why = "index needed by foreign key"
  /\ op.t \in Shared(o, n)
  /\ LET a == TableOf(o, op.t) b == TableOf(n, op.t) IN
       \E i \in 1..Len(a.idx) :
         /\ IsFK(a.idx[i]) /\ a.idx[i].sym # None /\ MeanIdx(a.idx[i]) \in Meanings(b)
         /\ \E j \in 1..Len(b.idx) : Supports(b.idx[j], a.idx[i])
         /\ \A j \in 1..Len(b.idx) : Supports(b.idx[j], a.idx[i]) => MeanIdx(b.idx[j]) \notin Meanings(a)

Refused(o, n, ops, r) ==
  IF ReplacesSupport(o, n, ops, r) THEN "KF:support-index"
  ELSE "statement " \o ToString(r.at) \o " is refused: " \o r.why \o " " \o ToString(ops[r.at])

(* C01 *)
Result(o, n, ops) ==
  LET r == TypedExecAll(o, n, ops) IN
  IF ~r.ok THEN Refused(o, n, ops, r)
  ELSE IF TablesOf(r.db) # TablesOf(n) \/ Len(r.db) # Len(n) THEN "wrong tables: " \o ToString(TablesOf(r.db))
  ELSE LET good(t) == IF t \in TablesOf(o) THEN Migrated(TableOf(r.db, t), TableOf(n, t))
                                           ELSE Created(TableOf(r.db, t), TableOf(n, t))
           bad == { t \in TablesOf(n) : ~good(t) }
       IN IF bad = {} THEN ""
          ELSE LET t == CHOOSE t \in bad : TRUE IN "table " \o t \o ": " \o WhyTable(TableOf(r.db, t), TableOf(n, t))

(* C02 *)
Executable(o, n, ops) ==
  LET r == TypedExecAll(o, n, ops) IN IF r.ok THEN "" ELSE Refused(o, n, ops, r)

(* C03 *)
Target(t, op) ==
  CASE op.op = "droppk"  -> Where(t, IsPK)
    [] op.op = "dropidx" -> IndexNamed(t, op.n)
    [] op.op = "dropfk"  -> FKNamed(t, op.n)

Touches(o, n, ops, k) ==
  LET op == ops[k] IN
  CASE op.op = "drop" -> IF op.t \in TablesOf(n) THEN "drops a table that stays" ELSE ""
    [] op.op = "create" -> IF op.t \in TablesOf(o) THEN "creates a table that is there" ELSE ""
    [] op.op \in {"begin", "commit", "fkchecks"} -> ""
    [] op.t \notin Shared(o, n) -> "alters a table that is not in both schemas"
    [] OTHER ->
       LET a == TableOf(o, op.t) b == TableOf(n, op.t) IN
       CASE op.op = "dropcol" -> IF op.n \in ColNames(b) THEN "drops a column that stays" ELSE ""
         [] op.op = "addcol"  -> IF op.x[1].name \in ColNames(a) THEN "adds a column that is there" ELSE ""
         [] op.op = "chgcol"  ->
              IF op.n # op.x[1].name THEN "renames a column"
              ELSE IF op.n \in ColNames(a) \cap ColNames(b) /\ ColNamed(a, op.n) = ColNamed(b, op.n)
                   THEN "changes a column that is the same"
              ELSE IF \E j \in 1..Len(ops) : j # k /\ ops[j].op = "chgcol" /\ ops[j].t = op.t /\ ops[j].n = op.n
                   THEN "changes a column twice" ELSE ""
         [] op.op = "addidx" -> IF MeanIdx(op.x[1]) \in Meanings(a) THEN "adds an index that is there" ELSE ""
         [] OTHER -> IF \E i \in Target(a, op) : MeanIdx(a.idx[i]) \in Meanings(b) THEN "drops an index that stays" ELSE ""

LeavesAlone(o, n, ops) ==
  LET bad == { k \in 1..Len(ops) : Touches(o, n, ops, k) # "" } IN
  IF bad = {} THEN "" ELSE LET k == CHOOSE k \in bad : TRUE IN Touches(o, n, ops, k) \o ": " \o ToString(ops[k])

(* C04 *)
IsEmpty(ops) == IF ops = << >> THEN "" ELSE "equivalent schemas differ: " \o ToString(ops[1])

(* C05 *)
Order(t) == [ i \in 1..Len(t.cols) |-> t.cols[i].name ]
Common(t, names) == SelectSeq(Order(t), LAMBDA c : c \in names)
KeepsOrder(a, b) == LET both == ColNames(a) \cap ColNames(b) IN Common(a, both) = Common(b, both)
Before(t, c) == LET i == ColPos(t, c) IN IF i = 1 THEN "" ELSE t.cols[i - 1].name

ColumnOps == {"addcol", "chgcol", "dropcol"}
Positions(o, n, ops) ==
  LET bad == { k \in 1..Len(ops) :
        LET op == ops[k] IN
        /\ op.op = "addcol" /\ op.t \in TablesOf(n) /\ op.x[1].name \in ColNames(TableOf(n, op.t))
        /\ op.x[2] # Some(Before(TableOf(n, op.t), op.x[1].name)) }
      \* what keys prevent is another matter
      bare(s) == [ i \in 1..Len(s) |-> [s[i] EXCEPT !.idx = << >>] ]
      r == ExecAll(bare(o), SelectSeq(ops, LAMBDA op : op.op \in ColumnOps))
      late == { t \in Shared(o, n) : KeepsOrder(TableOf(o, t), TableOf(n, t))
                                     /\ Order(TableOf(r.db, t)) # Order(TableOf(n, t)) }
  IN IF bad # {} THEN "wrong position: " \o ToString(ops[CHOOSE k \in bad : TRUE])
     ELSE IF ~r.ok THEN "column statement " \o ToString(r.at) \o " is refused: " \o r.why
     ELSE IF late # {} THEN LET t == CHOOSE t \in late : TRUE IN
                            "wrong order of columns: " \o ToString(<< t, Order(TableOf(r.db, t)) >>)
     ELSE ""

(* C12: the statements of an output with or without the envelope, or why not  *)
Envelope(ops) ==
  /\ Len(ops) >= 4
  /\ ops[1].op = "begin"
  /\ ops[2].op = "fkchecks" /\ ops[2].n = "0"
  /\ ops[Len(ops) - 1].op = "fkchecks" /\ ops[Len(ops) - 1].n = "1"
  /\ ops[Len(ops)].op = "commit"
Inner(ops) == SubSeq(ops, 3, Len(ops) - 2)
NoEnvelope(ops) == \A k \in 1..Len(ops) : ops[k].op \notin {"begin", "commit", "fkchecks"}
=============================================================================
