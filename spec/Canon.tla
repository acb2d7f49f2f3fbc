------------------------------- MODULE Canon --------------------------------
(* The data model of a schema, and its canonical form.                       *)
(*                                                                            *)
(* A table is a record                                                        *)
(*   [name, temp, ine, like, cols, idx, opts]                                 *)
(* with like \in {<<>>, <<name>>}, cols a sequence of columns, idx a sequence *)
(* of indexes, opts a sequence of [k, v, q].                                  *)
(* A column is a record                                                       *)
(*   [name, typ, len, dec, uns, zf, bin, cs, co, upd, nul, def, ai, uniq,     *)
(*    prim, key, com, vals]                                                   *)
(* where len, dec, cs, co, upd, com are optional strings, def an optional     *)
(* [v, q], nul \in {"none","null","notnull"}, vals the ENUM or SET values.    *)
(* An index is a record                                                       *)
(*   [kind, sym, name, typ, cols, opts, ref]                                  *)
(* kind \in {"PRIMARY","NORMAL","UNIQUE","FULLTEXT","SPATIAL","FOREIGN"},     *)
(* typ \in {"none","btree","hash"}, cols a sequence of [n, len, dir] with     *)
(* dir \in {"none","asc","desc"}, opts a sequence of [k, v], ref optional     *)
(*   [t, cols, match, del, upd].                                              *)
EXTENDS Text

Synonym(t) ==
  CASE t \in {"BOOL", "BOOLEAN"} -> "TINYINT"
    [] t = "INTEGER" -> "INT"
    [] t = "NUMERIC" -> "DECIMAL"
    [] t = "REAL"    -> "DOUBLE"
    [] OTHER         -> t

NumericTypes == {"TINYINT","SMALLINT","MEDIUMINT","INT","INTEGER","BIGINT","FLOAT",
                 "DOUBLE","DECIMAL","NUMERIC","REAL","BOOL","BOOLEAN"}
BlobTypes == {"TINYTEXT","TINYBLOB","BLOB","TEXT","MEDIUMBLOB","MEDIUMTEXT","LONGBLOB","LONGTEXT"}

(* Implied display width: an optional <<len, dec>> *)
NativeLen(t, uns) ==
  CASE t \in {"BOOL","BOOLEAN","BIT","CHAR","BINARY"} -> << Some("1"), None >>
    [] t = "TINYINT"   -> << Some(IF uns THEN "3" ELSE "4"), None >>
    [] t = "SMALLINT"  -> << Some(IF uns THEN "5" ELSE "6"), None >>
    [] t = "MEDIUMINT" -> << Some(IF uns THEN "8" ELSE "9"), None >>
    [] t \in {"INT","INTEGER"} -> << Some(IF uns THEN "10" ELSE "11"), None >>
    [] t = "BIGINT"    -> << Some("20"), None >>
    [] t \in {"DECIMAL","NUMERIC"} -> << Some("10"), Some("0") >>
    [] OTHER -> << None, None >>

CanonLen(c) ==
  IF c.len = None THEN NativeLen(c.typ, c.uns)
  ELSE IF c.typ \in {"DECIMAL","NUMERIC"} /\ c.dec = None THEN << c.len, Some("0") >>
  ELSE << c.len, c.dec >>

CanonNul(n) == IF n = "null" THEN "none" ELSE n

CanonDef(c) ==
  IF c.def # None
  THEN LET d == c.def[1] IN
       IF c.typ \in NumericTypes
       THEN IF d.q THEN (IF IsNumber(d.v) THEN Some([v |-> Upper(d.v), q |-> FALSE]) ELSE c.def)
            ELSE IF d.v = "TRUE"  THEN Some([v |-> "1", q |-> FALSE])
            ELSE IF d.v = "FALSE" THEN Some([v |-> "0", q |-> FALSE])
            ELSE c.def
       ELSE IF c.typ \in BlobTypes /\ ~d.q /\ d.v = "NULL" /\ c.nul # "notnull" THEN None
       ELSE c.def
  ELSE IF c.typ \in BlobTypes \/ c.nul = "notnull" THEN None
  ELSE Some([v |-> "NULL", q |-> FALSE])

CanonCol(c) ==
  LET l == CanonLen(c) IN
  [c EXCEPT !.typ = Synonym(c.typ), !.len = l[1], !.dec = l[2],
            !.nul = CanonNul(c.nul), !.def = CanonDef(c)]

(* Keys declared inline, as table indexes *)
PlainIdx(kind, name, cols) ==
  [kind |-> kind, sym |-> None, name |-> name, typ |-> "none", cols |-> cols,
   opts |-> << >>, ref |-> None]
IdxCol(n) == [n |-> n, len |-> None, dir |-> "none"]
InlineKeys(c) ==
  (IF c.prim \/ c.key THEN << PlainIdx("PRIMARY", None, << IdxCol(c.name) >>) >> ELSE << >>) \o
  (IF c.uniq THEN << PlainIdx("UNIQUE", Some(c.name), << IdxCol(c.name) >>) >> ELSE << >>)

RECURSIVE Flatten(_)
Flatten(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flatten(Tail(s))

(* Names that are taken by indexes proper (not by foreign keys) *)
IndexNames(idx) == { idx[i].name[1] : i \in { j \in 1..Len(idx) : idx[j].kind # "FOREIGN" /\ idx[j].name # None } }

(* A foreign key with a symbol has an index of that name, declared or not *)
WithImplicit(idx, taken) ==
  Flatten([ i \in 1..Len(idx) |->
     IF idx[i].kind = "FOREIGN" /\ idx[i].sym # None /\ idx[i].sym[1] \notin taken
     THEN << [PlainIdx("NORMAL", idx[i].sym, idx[i].cols) EXCEPT !.typ = idx[i].typ], idx[i] >>
     ELSE << idx[i] >> ])

StripKeys(c) == [c EXCEPT !.prim = FALSE, !.key = FALSE, !.uniq = FALSE]

CanonTable(t) ==
  LET inline == Flatten([ i \in 1..Len(t.cols) |-> InlineKeys(t.cols[i]) ])
  IN [t EXCEPT !.cols = [ i \in 1..Len(t.cols) |-> StripKeys(CanonCol(t.cols[i])) ],
               !.idx  = inline \o WithImplicit(t.idx, IndexNames(t.idx) \cup IndexNames(inline))]

(* Equality of tables: columns and options in order, indexes in any order *)
SameTable(a, b) ==
  /\ a.name = b.name /\ a.temp = b.temp /\ a.ine = b.ine /\ a.like = b.like
  /\ a.cols = b.cols /\ a.opts = b.opts
  /\ SameBag(a.idx, b.idx)

SameSchema(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameTable(a[i], b[i])

(* What an index means: ascending is the default direction *)
MeanCol(c)  == IF c.dir = "asc" THEN [c EXCEPT !.dir = "none"] ELSE c
MeanCols(s) == [ i \in 1..Len(s) |-> MeanCol(s[i]) ]
MeanIdx(x)  == [x EXCEPT !.cols = MeanCols(@),
                         !.ref = IF @ = None THEN None ELSE Some([@[1] EXCEPT !.cols = MeanCols(@)])]
MeanIdxs(s) == [ i \in 1..Len(s) |-> MeanIdx(s[i]) ]
=============================================================================
