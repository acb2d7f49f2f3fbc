------------------------------ MODULE Grammar -------------------------------
(* The statements schemalex understands, as a deterministic automaton over    *)
(* significant tokens: Delta(st, t) is the state after token t. The automaton *)
(* builds the declared schema as it goes. State group "err" means that t      *)
(* cannot continue the input; st.n counts the tokens accepted before it.      *)
(*                                                                            *)
(* A token is [k, v]: k the kind (a keyword, or IDENT, BACKTICK_IDENT, ...),  *)
(* v its decoded text. Input ends with one token of kind EOF; an unterminated *)
(* quote or comment is a token of kind UNTERM (nothing follows it but EOF).   *)
(*                                                                            *)
(* The same automaton reads the two dialects                                  *)
(*   "schema": what the parser accepts, and                                   *)
(*   "script": what a MySQL server executes (CREATE TABLE as MySQL defines    *)
(*             it, ALTER TABLE, DROP TABLE, SET, BEGIN, COMMIT).              *)
EXTENDS Canon

NameKinds   == {"IDENT", "BACKTICK_IDENT"}
StringKinds == {"SINGLE_QUOTE_IDENT", "DOUBLE_QUOTE_IDENT"}
CharsetKinds == NameKinds \cup StringKinds \cup {"BINARY"}

-----------------------------------------------------------------------------
(* Column types and the attributes that belong to the type *)
Mask(typ) ==
  CASE typ = "BIT" -> {"size"}
    [] typ \in {"TINYINT","SMALLINT","MEDIUMINT","INT","INTEGER","BIGINT"} -> {"size","unsigned","zerofill"}
    [] typ \in {"REAL","DOUBLE","FLOAT"} -> {"dec","unsigned","zerofill"}
    [] typ \in {"DECIMAL","NUMERIC"} -> {"decopt","unsigned","zerofill"}
    [] typ \in {"TIME","TIMESTAMP","DATETIME","BINARY","VARBINARY"} -> {"size"}
    [] typ \in {"CHAR","VARCHAR"} -> {"size","binary"}
    [] typ \in {"TINYTEXT","TEXT","MEDIUMTEXT","LONGTEXT"} -> {"size","binary"}
    [] typ \in {"ENUM","SET"} -> {"values"}
    [] OTHER -> {}

Types == {"BIT","TINYINT","SMALLINT","MEDIUMINT","INT","INTEGER","BIGINT","REAL","DOUBLE","FLOAT",
          "DECIMAL","NUMERIC","DATE","TIME","TIMESTAMP","DATETIME","YEAR","CHAR","VARCHAR","BINARY",
          "VARBINARY","TINYBLOB","BLOB","MEDIUMBLOB","LONGBLOB","TINYTEXT","TEXT","MEDIUMTEXT",
          "LONGTEXT","ENUM","SET","BOOLEAN","BOOL","JSON","GEOMETRY"}

(* The attributes of a type come in this order, before everything else *)
Rank(a) ==
  CASE a = "size" -> 1 [] a = "dec" -> 2 [] a = "decopt" -> 3 [] a = "unsigned" -> 4
    [] a = "zerofill" -> 5 [] a = "binary" -> 6 [] a = "values" -> 9 [] OTHER -> 11

-----------------------------------------------------------------------------
NewTable(name, temp, ine) ==
  [name |-> name, temp |-> temp, ine |-> ine, like |-> None,
   cols |-> << >>, idx |-> << >>, opts |-> << >>]
NewCol(name) ==
  [name |-> name, typ |-> "", len |-> None, dec |-> None, uns |-> FALSE, zf |-> FALSE, bin |-> FALSE,
   cs |-> None, co |-> None, upd |-> None, nul |-> "none", def |-> None, ai |-> FALSE, uniq |-> FALSE,
   prim |-> FALSE, key |-> FALSE, com |-> None, vals |-> << >>]
NewIdx(kind, sym) ==
  [kind |-> kind, sym |-> sym, name |-> None, typ |-> "none", cols |-> << >>, opts |-> << >>, ref |-> None]
NewRef(t) == [t |-> t, cols |-> << >>, match |-> "none", del |-> "none", upd |-> "none"]

NoTable == NewTable("", FALSE, FALSE)
NoCol   == NewCol("")
NoIdx   == NewIdx("NORMAL", None)
NoRef   == NewRef("")

(* g, p: control. mode: what the definition being read is part of.            *)
Start(dialect) ==
  [g |-> "top", p |-> "", d |-> dialect, n |-> 0, mode |-> "table",
   temp |-> FALSE, ine |-> FALSE, tbl |-> NoTable, col |-> NoCol, pos |-> 0,
   sym |-> None, ix |-> NoIdx, ixc |-> IdxCol(""), rf |-> NoRef, ons |-> 0, w |-> "ix",
   key |-> "", old |-> "", at |-> None, out |-> << >>]

Err(st)      == [st EXCEPT !.g = "err"]
To(st, g, p) == [st EXCEPT !.g = g, !.p = p]
If(c, st, g, p) == IF c THEN To(st, g, p) ELSE Err(st)

Emit(st, x) == [st EXCEPT !.out = Append(@, x),
                          !.tbl = NoTable, !.col = NoCol, !.ix = NoIdx, !.ixc = IdxCol(""),
                          !.rf = NoRef, !.sym = None, !.pos = 0, !.ons = 0, !.temp = FALSE, !.ine = FALSE,
                          !.mode = "table", !.w = "ix", !.key = "", !.old = "", !.at = None]
Op(o, t, n, x) == [op |-> o, t |-> t, n |-> n, x |-> x]

(* Words that are no keywords of the schema dialect *)
Word(t, w) == t.k = "IDENT" /\ Upper(t.v) = w

(* The end of a CREATE TABLE statement *)
EndTable(st, t) ==
  LET s == Emit(st, IF st.d = "schema" THEN CanonTable(st.tbl) ELSE Op("create", st.tbl.name, "", << st.tbl >>)) IN
  CASE t.k = "SEMICOLON" -> To(s, "top", "")
    [] t.k = "EOF" /\ st.d = "schema" -> To(s, "done", "")
    [] OTHER -> Err(st)

-----------------------------------------------------------------------------
(* Statements *)
Skip(st, t) ==
  CASE t.k = "SEMICOLON" -> To(st, "top", "")
    [] t.k = "EOF" -> To(st, "done", "")
    [] t.k = "UNTERM" -> Err(st)
    [] OTHER -> st

DTop(st, t) ==
  CASE t.k = "CREATE" -> To(st, "create", "")
    [] t.k = "EOF" -> To(st, "done", "")
    [] st.d = "schema" /\ t.k = "SEMICOLON" -> st
    [] st.d = "schema" /\ t.k \in {"DROP", "SET", "USE"} -> To(st, "skip", "")
    [] st.d = "script" /\ t.k = "DROP" -> To(st, "script", "drop")
    [] st.d = "script" /\ t.k = "SET" -> To(st, "script", "set")
    [] st.d = "script" /\ Word(t, "BEGIN") -> To(st, "script", "begin")
    [] st.d = "script" /\ Word(t, "COMMIT") -> To(st, "script", "commit")
    [] st.d = "script" /\ Word(t, "ALTER") -> To(st, "script", "alter")
    [] OTHER -> Err(st)

DCreate(st, t) ==
  CASE st.p = "" ->
         CASE t.k = "TABLE" -> To(st, "create", "table")
           [] t.k = "TEMPORARY" -> To([st EXCEPT !.temp = TRUE], "create", "temporary")
           [] t.k = "DATABASE" /\ st.d = "schema" -> To(st, "db", "")
           [] OTHER -> Err(st)
    [] st.p = "temporary" -> If(t.k = "TABLE", st, "create", "table")
    [] st.p \in {"table", "table2"} ->
         CASE t.k = "TEMPORARY" /\ st.p = "table" /\ st.d = "schema" ->
                To([st EXCEPT !.temp = TRUE], "create", "table2")
           [] t.k = "IF" -> To([st EXCEPT !.ine = TRUE], "create", "if")
           [] t.k \in NameKinds -> To([st EXCEPT !.tbl = NewTable(t.v, st.temp, st.ine)], "create", "named")
           [] OTHER -> Err(st)
    [] st.p = "if"     -> If(t.k = "NOT", st, "create", "ifnot")
    [] st.p = "ifnot"  -> If(t.k = "EXISTS", st, "create", "name")
    [] st.p = "name"   ->
         IF t.k \in NameKinds THEN To([st EXCEPT !.tbl = NewTable(t.v, st.temp, st.ine)], "create", "named") ELSE Err(st)
    [] st.p = "named" ->
         CASE t.k = "LPAREN" -> To(st, "field", "")
           [] t.k = "LIKE" -> To(st, "create", "like")
           [] t.k = "IF" /\ st.d = "schema" -> To(st, "create", "if2")
           [] OTHER -> Err(st)
    [] st.p = "if2"    -> If(t.k = "NOT", st, "create", "ifnot2")
    [] st.p = "ifnot2" -> If(t.k = "EXISTS", [st EXCEPT !.tbl.ine = TRUE], "create", "lparen")
    [] st.p = "lparen" -> If(t.k = "LPAREN", st, "field", "")
    [] st.p = "like"   -> If(t.k \in NameKinds, [st EXCEPT !.tbl.like = Some(t.v)], "create", "end")
    [] st.p = "end"    -> EndTable(st, t)

(* CREATE DATABASE declares nothing *)
DDb(st, t) ==
  CASE st.p = "" /\ t.k = "IF" -> To(st, "db", "if")
    [] st.p = "if"     -> If(t.k = "NOT", st, "db", "ifnot")
    [] st.p = "ifnot"  -> If(t.k = "EXISTS", st, "db", "name")
    [] st.p \in {"", "name"} -> If(t.k \in NameKinds, st, "db", "opt")
    [] st.p \in {"opt", "default"} ->
         CASE t.k = "EOF" /\ st.p = "opt" -> To(st, "done", "")
           [] t.k = "SEMICOLON" /\ st.p = "opt" -> To(st, "top", "")
           [] t.k = "DEFAULT" /\ st.p = "opt" -> To(st, "db", "default")
           [] t.k = "CHARACTER" -> To(st, "db", "set")
           [] t.k \in {"CHARSET", "COLLATE"} -> To(st, "db", "eq")
           [] OTHER -> Err(st)
    [] st.p = "set"   -> If(t.k = "SET", st, "db", "eq")
    [] st.p = "eq" /\ t.k = "EQUAL" -> To(st, "db", "value")
    [] st.p \in {"eq", "value"} -> If(t.k \in CharsetKinds, st, "db", "opt")

-----------------------------------------------------------------------------
(* Definitions inside of a table, or after ALTER TABLE ... ADD *)

(* What follows a complete column or index *)
EndField(st, t) ==
  CASE st.mode = "table" ->
         CASE t.k = "RPAREN" -> To(st, "opt", "start")
           [] t.k = "COMMA" -> To(st, "field", "")
           [] OTHER -> Err(st)
    [] st.mode = "addidx" ->
         IF t.k = "SEMICOLON" THEN To(Emit(st, Op("addidx", st.tbl.name, "", << st.ix >>)), "top", "") ELSE Err(st)
    [] st.mode \in {"addcol", "chgcol"} ->
         CASE t.k = "SEMICOLON" ->
                To(Emit(st, Op(st.mode, st.tbl.name, st.old, << st.col, st.at >>)), "top", "")
           [] t.k = "FIRST" /\ st.at = None -> To([st EXCEPT !.at = Some("")], "script", "colend")
           [] Word(t, "AFTER") /\ st.at = None -> To(st, "script", "after")
           [] OTHER -> Err(st)

EndColumn(st, t) ==
  EndField(IF st.mode = "table" THEN [st EXCEPT !.tbl.cols = Append(@, st.col)] ELSE st, t)
EndIndex(st, t) ==
  EndField(IF st.mode = "table" THEN [st EXCEPT !.tbl.idx = Append(@, st.ix)] ELSE st, t)

Index(st, kind) == [st EXCEPT !.ix = NewIdx(kind, st.sym), !.sym = None]

DField(st, t) ==
  CASE st.p = "" ->
         CASE t.k = "CONSTRAINT" -> To(st, "field", "sym")
           [] t.k = "PRIMARY" -> To(Index(st, "PRIMARY"), "field", "key")
           [] t.k = "UNIQUE" -> To(Index(st, "UNIQUE"), "field", "keyopt")
           [] t.k \in {"INDEX", "KEY"} -> To(Index(st, "NORMAL"), "ix", "name")
           [] t.k = "FULLTEXT" -> To(Index(st, "FULLTEXT"), "field", "keyopt")
           [] t.k = "SPATIAL" -> To(Index(st, "SPATIAL"), "field", "keyopt")
           [] t.k = "FOREIGN" -> To(Index(st, "FOREIGN"), "field", "key")
           [] t.k \in NameKinds /\ st.mode = "table" ->
                To([st EXCEPT !.col = NewCol(t.v), !.pos = 0], "col", "type")
           [] OTHER -> Err(st)
    [] st.p = "sym" /\ t.k \in NameKinds -> To([st EXCEPT !.sym = Some(t.v)], "field", "constraint")
    [] st.p \in {"sym", "constraint"} ->
         CASE t.k = "PRIMARY" -> To(Index(st, "PRIMARY"), "field", "key")
           [] t.k = "UNIQUE" -> To(Index(st, "UNIQUE"), "field", "keyopt")
           [] t.k = "FOREIGN" -> To(Index(st, "FOREIGN"), "field", "key")
           [] OTHER -> Err(st)
    [] st.p = "key" -> If(t.k = "KEY", st, "ix", "name")
    [] st.p = "keyopt" /\ t.k \in {"KEY", "INDEX"} -> To(st, "ix", "name")
    [] st.p = "keyopt" -> \* an optional KEY or INDEX, then as in "name"
         IF t.k \in NameKinds THEN To([st EXCEPT !.ix.name = Some(t.v)], "ix", "named")
         ELSE IF t.k = "USING" /\ st.ix.kind = "UNIQUE" THEN To(st, "ix", "type")
         ELSE If(t.k = "LPAREN", [st EXCEPT !.w = "ix"], "ixcol", "")

TypedKinds == {"PRIMARY", "UNIQUE", "NORMAL"}

DRefEnd(st, t) ==
  LET s == [st EXCEPT !.ix.ref = Some(st.rf)] IN
  IF t.k = "ON" /\ st.ons < 2 THEN To(st, "ref", "on") ELSE EndIndex(s, t)

DIx(st, t) ==
  CASE st.p = "name" /\ t.k \in NameKinds -> To([st EXCEPT !.ix.name = Some(t.v)], "ix", "named")
    [] st.p \in {"name", "named"} /\ t.k = "USING" /\ st.ix.kind \in TypedKinds -> To(st, "ix", "type")
    [] st.p \in {"name", "named", "typed"} -> If(t.k = "LPAREN", [st EXCEPT !.w = "ix"], "ixcol", "")
    [] st.p = "type"  -> If(t.k \in {"BTREE", "HASH"}, [st EXCEPT !.ix.typ = IF t.k = "BTREE" THEN "btree" ELSE "hash"], "ix", "typed")
    [] st.p = "type2" -> If(t.k \in {"BTREE", "HASH"}, [st EXCEPT !.ix.typ = IF t.k = "BTREE" THEN "btree" ELSE "hash"], "ix", "end")
    [] st.p = "cols" -> \* after the columns
         CASE st.ix.kind \in TypedKinds /\ t.k = "USING" /\ st.ix.typ = "none" -> To(st, "ix", "type2")
           [] st.ix.kind = "FULLTEXT" /\ t.k = "WITH" -> To(st, "ix", "with")
           [] st.ix.kind = "FOREIGN" /\ t.k = "REFERENCES" -> To(st, "ref", "")
           [] OTHER -> EndIndex(st, t)
    [] st.p = "with"   -> If(t.k = "PARSER", st, "ix", "parser")
    [] st.p = "parser" ->
         If(t.k \in NameKinds, [st EXCEPT !.ix.opts = Append(@, [k |-> "WITH PARSER", v |-> t.v])], "ix", "end")
    [] st.p = "end" -> EndIndex(st, t)

(* The columns of an index or a reference *)
EndIxCol(st, t) ==
  LET s == [(IF st.w = "ix" THEN [st EXCEPT !.ix.cols = Append(@, st.ixc)]
                            ELSE [st EXCEPT !.rf.cols = Append(@, st.ixc)]) EXCEPT !.ixc = IdxCol("")] IN
  CASE t.k = "COMMA" -> To(s, "ixcol", "")
    [] t.k = "RPAREN" -> IF st.w = "ix" THEN To(s, "ix", "cols") ELSE To(s, "ref", "cols")
    [] OTHER -> Err(st)

DIxCol(st, t) ==
  CASE st.p = "" -> If(t.k \in NameKinds, [st EXCEPT !.ixc = IdxCol(t.v)], "ixcol", "named")
    [] st.p = "named" /\ t.k = "LPAREN" -> To(st, "ixcol", "len")
    [] st.p = "len"    -> If(t.k = "NUMBER", [st EXCEPT !.ixc.len = Some(t.v)], "ixcol", "rparen")
    [] st.p = "rparen" -> If(t.k = "RPAREN", st, "ixcol", "dir")
    [] st.p \in {"named", "dir"} /\ t.k \in {"ASC", "DESC"} ->
         To([st EXCEPT !.ixc.dir = IF t.k = "ASC" THEN "asc" ELSE "desc"], "ixcol", "end")
    [] st.p \in {"named", "dir", "end"} -> EndIxCol(st, t)

DRef(st, t) ==
  CASE st.p = "" -> If(t.k \in NameKinds, [st EXCEPT !.rf = NewRef(t.v), !.ons = 0], "ref", "lparen")
    [] st.p = "lparen" -> If(t.k = "LPAREN", [st EXCEPT !.w = "ref"], "ixcol", "")
    [] st.p = "cols" /\ t.k = "MATCH" -> To(st, "ref", "match")
    [] st.p \in {"cols", "opt"} -> DRefEnd(st, t)
    [] st.p = "match" ->
         If(t.k \in {"FULL", "PARTIAL", "SIMPLE"},
            [st EXCEPT !.rf.match = CASE t.k = "FULL" -> "full" [] t.k = "PARTIAL" -> "partial" [] OTHER -> "simple"],
            "ref", "opt")
    [] st.p = "on" -> \* ON UPDATE is the last one
         CASE t.k = "DELETE" /\ st.ons = 0 -> To([st EXCEPT !.key = "del", !.ons = @ + 1], "ref", "action")
           [] t.k = "UPDATE" -> To([st EXCEPT !.key = "upd", !.ons = 2], "ref", "action")
           [] OTHER -> Err(st)
    [] st.p = "action" ->
         CASE t.k = "RESTRICT" -> To([st EXCEPT !.rf[st.key] = "restrict"], "ref", "opt")
           [] t.k = "CASCADE" -> To([st EXCEPT !.rf[st.key] = "cascade"], "ref", "opt")
           [] t.k = "SET" -> To(st, "ref", "setnull")
           [] t.k = "NO" -> To(st, "ref", "noaction")
           [] OTHER -> Err(st)
    [] st.p = "setnull"  -> If(t.k = "NULL", [st EXCEPT !.rf[st.key] = "setnull"], "ref", "opt")
    [] st.p = "noaction" -> If(t.k = "ACTION", [st EXCEPT !.rf[st.key] = "noaction"], "ref", "opt")

-----------------------------------------------------------------------------
(* Columns *)
May(st, a) == (Rank(a) = 11 \/ a \in Mask(st.col.typ)) /\ st.pos <= Rank(a)
Put(st, a, s, p) == IF May(st, a) THEN To([s EXCEPT !.pos = Rank(a)], "col", p) ELSE Err(st)

DAttr(st, t) ==
  LET m == Mask(st.col.typ) IN
  CASE t.k = "LPAREN" ->
         CASE st.pos > 0 -> Err(st) \* size and values come first, and once
           [] "size" \in m -> Put(st, "size", st, "size")
           [] "dec" \in m -> Put(st, "dec", st, "dec")
           [] "decopt" \in m -> Put(st, "decopt", st, "decopt")
           [] "values" \in m -> Put(st, "values", [st EXCEPT !.col.vals = << >>], "value")
           [] OTHER -> Err(st)
    [] t.k = "CHARACTER" -> To(st, "col", "set")
    [] t.k = "COLLATE" -> To(st, "col", "collation")
    [] t.k = "UNSIGNED" -> Put(st, "unsigned", [st EXCEPT !.col.uns = TRUE], "attr")
    [] t.k = "ZEROFILL" -> Put(st, "zerofill", [st EXCEPT !.col.zf = TRUE], "attr")
    [] t.k = "BINARY" -> Put(st, "binary", [st EXCEPT !.col.bin = TRUE], "attr")
    [] t.k = "NOT" -> Put(st, "any", st, "not")
    [] t.k = "NULL" -> Put(st, "any", [st EXCEPT !.col.nul = "null"], "attr")
    [] t.k = "ON" -> To(st, "col", "on")
    [] t.k = "DEFAULT" -> Put(st, "any", st, "default")
    [] t.k = "AUTO_INCREMENT" -> Put(st, "any", [st EXCEPT !.col.ai = TRUE], "attr")
    [] t.k = "UNIQUE" -> Put(st, "any", [st EXCEPT !.col.uniq = TRUE], "unique")
    [] t.k = "KEY" -> Put(st, "any", [st EXCEPT !.col.key = TRUE], "attr")
    [] t.k = "PRIMARY" -> Put(st, "any", st, "primary")
    [] t.k = "COMMENT" -> Put(st, "any", st, "comment")
    [] OTHER -> EndColumn(st, t)

Default(st, v, q) == To([st EXCEPT !.col.def = Some([v |-> v, q |-> q])], "col", "attr")

DCol(st, t) ==
  CASE st.p = "type" ->
         If(t.k \in Types, [st EXCEPT !.col.typ = t.k], "col", IF t.k \in {"ENUM", "SET"} THEN "values" ELSE "attr")
    [] st.p = "values" -> IF t.k = "LPAREN" THEN DAttr(st, t) ELSE Err(st)
    [] st.p = "attr" -> DAttr(st, t)
    [] st.p = "unique" -> IF t.k = "KEY" THEN To(st, "col", "attr") ELSE DAttr(st, t)
    \* sizes
    [] st.p \in {"size", "dec", "decopt"} ->
         If(t.k = "NUMBER", [st EXCEPT !.col.len = Some(t.v), !.col.dec = None], "col",
            CASE st.p = "size" -> "rparen" [] st.p = "dec" -> "comma" [] OTHER -> "commaopt")
    [] st.p = "comma" -> If(t.k = "COMMA", st, "col", "decimals")
    [] st.p = "commaopt" ->
         CASE t.k = "RPAREN" -> To(st, "col", "attr")
           [] t.k = "COMMA" -> To(st, "col", "decimals")
           [] OTHER -> Err(st)
    [] st.p = "decimals" -> If(t.k = "NUMBER", [st EXCEPT !.col.dec = Some(t.v)], "col", "rparen")
    [] st.p = "rparen" -> If(t.k = "RPAREN", st, "col", "attr")
    \* values
    [] st.p = "value" -> If(t.k \in StringKinds, [st EXCEPT !.col.vals = Append(@, t.v)], "col", "valuesep")
    [] st.p = "valuesep" ->
         CASE t.k = "COMMA" -> To(st, "col", "value")
           [] t.k = "RPAREN" -> To(st, "col", "attr")
           [] OTHER -> Err(st)
    \* attributes of several words
    [] st.p = "set" -> If(t.k = "SET", st, "col", "charset")
    [] st.p = "charset" -> If(t.k \in CharsetKinds, [st EXCEPT !.col.cs = Some(t.v)], "col", "attr")
    [] st.p = "collation" -> If(t.k \in CharsetKinds, [st EXCEPT !.col.co = Some(t.v)], "col", "attr")
    [] st.p = "not" -> If(t.k = "NULL", [st EXCEPT !.col.nul = "notnull"], "col", "attr")
    [] st.p = "on" -> If(t.k = "UPDATE", st, "col", "update")
    [] st.p = "update" ->
         If(t.k = "CURRENT_TIMESTAMP", [st EXCEPT !.col.upd = Some("CURRENT_TIMESTAMP")], "col", "updated")
    [] st.p = "updated" -> IF t.k = "LPAREN" THEN To(st, "col", "fsp") ELSE DAttr(st, t)
    [] st.p = "fsp" ->
         If(t.k = "NUMBER", [st EXCEPT !.col.upd = Some("CURRENT_TIMESTAMP(" \o t.v \o ")")], "col", "rparen")
    [] st.p = "default" ->
         CASE t.k \in StringKinds \/ (t.k = "IDENT" /\ st.d = "schema") -> Default(st, t.v, TRUE)
           [] t.k \in {"CURRENT_TIMESTAMP", "NULL", "TRUE", "FALSE"} -> Default(st, t.k, FALSE)
           [] t.k = "NUMBER" -> Default(st, Upper(t.v), FALSE)
           [] t.k = "NOW" -> To(st, "col", "now")
           [] OTHER -> Err(st)
    [] st.p = "now" -> If(t.k = "LPAREN", st, "col", "now2")
    [] st.p = "now2" -> IF t.k = "RPAREN" THEN Default(st, "NOW()", FALSE) ELSE Err(st)
    [] st.p = "primary" -> If(t.k = "KEY", [st EXCEPT !.col.prim = TRUE], "col", "attr")
    [] st.p = "comment" -> If(t.k = "SINGLE_QUOTE_IDENT", [st EXCEPT !.col.com = Some(t.v)], "col", "attr")

-----------------------------------------------------------------------------
(* Table options *)
OptValues(key) ==
  CASE key = "ENGINE" -> NameKinds \cup {"MEMORY"}
    [] key \in {"DEFAULT CHARACTER SET", "DEFAULT COLLATE"} -> NameKinds \cup {"BINARY"}
    [] key \in {"AUTO_INCREMENT", "AVG_ROW_LENGTH", "CHECKSUM", "DELAY_KEY_WRITE", "KEY_BLOCK_SIZE",
                "MAX_ROWS", "MIN_ROWS", "STATS_SAMPLE_PAGES"} -> {"NUMBER"}
    [] key \in {"COMMENT", "CONNECTION", "DATA DIRECTORY", "INDEX DIRECTORY", "PASSWORD"} -> StringKinds
    [] key = "INSERT_METHOD" -> {"IDENT"}
    [] key = "PACK_KEYS" -> {"NUMBER", "IDENT"}
    [] key = "ROW_FORMAT" -> {"DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT"}
    [] key \in {"STATS_AUTO_RECALC", "STATS_PERSISTENT"} -> {"NUMBER", "DEFAULT"}

OneWord == {"ENGINE", "AUTO_INCREMENT", "AVG_ROW_LENGTH", "CHECKSUM", "COMMENT", "CONNECTION", "DELAY_KEY_WRITE",
            "INSERT_METHOD", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "PACK_KEYS", "PASSWORD", "ROW_FORMAT",
            "STATS_AUTO_RECALC", "STATS_PERSISTENT", "STATS_SAMPLE_PAGES"}

OptKey(st, key) == To([st EXCEPT !.key = key], "opt", "eq")

DOptStart(st, t) ==
  CASE t.k \in OneWord -> OptKey(st, t.k)
    [] t.k = "DEFAULT" -> To(st, "opt", "default")
    [] t.k = "CHARACTER" -> To(st, "opt", "set")
    [] t.k = "COLLATE" -> OptKey(st, "DEFAULT COLLATE")
    [] t.k = "DATA" -> To(st, "opt", "data")
    [] t.k = "INDEX" -> To(st, "opt", "index")
    [] OTHER -> Err(st)

DOpt(st, t) ==
  CASE st.p \in {"start", "end"} ->
         CASE t.k \in {"EOF", "SEMICOLON"} -> EndTable(st, t)
           \* between two options, there may be a comma
           [] t.k = "COMMA" /\ st.p = "end" -> To(st, "opt", "")
           [] OTHER -> DOptStart(st, t)
    [] st.p = "" -> DOptStart(st, t)
    [] st.p = "default" ->
         CASE t.k = "CHARSET" -> OptKey(st, "DEFAULT CHARACTER SET")
           [] t.k = "CHARACTER" -> To(st, "opt", "set")
           [] t.k = "COLLATE" -> OptKey(st, "DEFAULT COLLATE")
           [] OTHER -> Err(st)
    [] st.p = "set" -> IF t.k = "SET" THEN OptKey(st, "DEFAULT CHARACTER SET") ELSE Err(st)
    [] st.p = "data" -> IF t.k = "DIRECTORY" THEN OptKey(st, "DATA DIRECTORY") ELSE Err(st)
    [] st.p = "index" -> IF t.k = "DIRECTORY" THEN OptKey(st, "INDEX DIRECTORY") ELSE Err(st)
    [] st.p = "eq" /\ t.k = "EQUAL" -> To(st, "opt", "value")
    [] st.p \in {"eq", "value"} ->
         If(t.k \in OptValues(st.key),
            [st EXCEPT !.tbl.opts = Append(@, [k |-> st.key, v |-> t.v, q |-> t.k \in StringKinds])], "opt", "end")

-----------------------------------------------------------------------------
(* The rest of the script dialect *)
ScriptEnd(st, t, op) == IF t.k = "SEMICOLON" THEN To(Emit(st, op), "top", "") ELSE Err(st)
Table(st) == st.tbl.name

DScript(st, t) ==
  CASE st.p \in {"begin", "commit"} -> ScriptEnd(st, t, Op(st.p, "", "", << >>))
    [] st.p = "set" -> If(Word(t, "FOREIGN_KEY_CHECKS"), st, "script", "seteq")
    [] st.p = "seteq" -> If(t.k = "EQUAL", st, "script", "setval")
    [] st.p = "setval" -> If(t.k = "NUMBER" /\ t.v \in {"0", "1"}, [st EXCEPT !.old = t.v], "script", "setend")
    [] st.p = "setend" -> ScriptEnd(st, t, Op("fkchecks", "", st.old, << >>))
    [] st.p = "drop" -> If(t.k = "TABLE", st, "script", "droptable")
    [] st.p = "droptable" -> If(t.k \in NameKinds, [st EXCEPT !.tbl = NewTable(t.v, FALSE, FALSE)], "script", "dropend")
    [] st.p = "dropend" -> ScriptEnd(st, t, Op("drop", Table(st), "", << >>))
    [] st.p = "alter" -> If(t.k = "TABLE", st, "script", "altertable")
    [] st.p = "altertable" -> If(t.k \in NameKinds, [st EXCEPT !.tbl = NewTable(t.v, FALSE, FALSE)], "script", "clause")
    [] st.p = "clause" ->
         CASE Word(t, "ADD") -> To(st, "script", "add")
           [] t.k = "DROP" -> To(st, "script", "altdrop")
           [] Word(t, "CHANGE") -> To(st, "script", "change")
           [] Word(t, "MODIFY") -> To(st, "script", "modify")
           [] OTHER -> Err(st)
    [] st.p = "add" ->
         CASE Word(t, "COLUMN") -> To(st, "script", "addcol")
           [] t.k \in NameKinds -> To([st EXCEPT !.mode = "addcol", !.col = NewCol(t.v), !.old = t.v], "col", "type")
           [] OTHER -> DField([st EXCEPT !.mode = "addidx", !.p = ""], t)
    [] st.p = "addcol" ->
         If(t.k \in NameKinds, [st EXCEPT !.mode = "addcol", !.col = NewCol(t.v), !.old = t.v], "col", "type")
    [] st.p = "change" /\ Word(t, "COLUMN") -> To(st, "script", "changecol")
    [] st.p \in {"change", "changecol"} -> If(t.k \in NameKinds, [st EXCEPT !.old = t.v], "script", "changeto")
    [] st.p = "changeto" ->
         If(t.k \in NameKinds, [st EXCEPT !.mode = "chgcol", !.col = NewCol(t.v)], "col", "type")
    [] st.p = "modify" /\ Word(t, "COLUMN") -> To(st, "script", "modifycol")
    [] st.p \in {"modify", "modifycol"} ->
         If(t.k \in NameKinds, [st EXCEPT !.mode = "chgcol", !.col = NewCol(t.v), !.old = t.v], "col", "type")
    [] st.p = "after" -> If(t.k \in NameKinds, [st EXCEPT !.at = Some(t.v)], "script", "colend")
    [] st.p = "colend" -> EndField(st, t)
    [] st.p = "altdrop" ->
         CASE Word(t, "COLUMN") -> To([st EXCEPT !.key = "dropcol"], "script", "dropname")
           [] t.k = "PRIMARY" -> To([st EXCEPT !.key = "droppk"], "script", "droppk")
           [] t.k \in {"INDEX", "KEY"} -> To([st EXCEPT !.key = "dropidx"], "script", "dropname")
           [] t.k = "FOREIGN" -> To([st EXCEPT !.key = "dropfk"], "script", "dropfk")
           [] t.k \in NameKinds -> To([st EXCEPT !.key = "dropcol", !.old = t.v], "script", "altend")
           [] OTHER -> Err(st)
    [] st.p = "droppk" -> If(t.k = "KEY", st, "script", "altend")
    [] st.p = "dropfk" -> If(t.k = "KEY", st, "script", "dropname")
    [] st.p = "dropname" -> If(t.k \in NameKinds, [st EXCEPT !.old = t.v], "script", "altend")
    [] st.p = "altend" -> ScriptEnd(st, t, Op(st.key, Table(st), st.old, << >>))

-----------------------------------------------------------------------------
Delta(st, t) ==
  CASE st.g = "top"    -> DTop(st, t)
    [] st.g = "skip"   -> Skip(st, t)
    [] st.g = "create" -> DCreate(st, t)
    [] st.g = "db"     -> DDb(st, t)
    [] st.g = "field"  -> DField(st, t)
    [] st.g = "ix"     -> DIx(st, t)
    [] st.g = "ixcol"  -> DIxCol(st, t)
    [] st.g = "ref"    -> DRef(st, t)
    [] st.g = "col"    -> DCol(st, t)
    [] st.g = "opt"    -> DOpt(st, t)
    [] st.g = "script" -> DScript(st, t)
    [] OTHER           -> Err(st)

Step(st, t) ==
  IF st.g \in {"err", "done"} THEN st
  ELSE LET s == Delta(st, t) IN IF s.g = "err" THEN s ELSE [s EXCEPT !.n = st.n + 1]

RECURSIVE RunFrom(_, _, _)
RunFrom(st, toks, i) ==
  IF i > Len(toks) \/ st.g \in {"err", "done"} THEN st
  ELSE RunFrom(Step(st, toks[i]), toks, i + 1)

Parse(toks)  == RunFrom(Start("schema"), toks, 1)
Script(toks) == RunFrom(Start("script"), toks, 1)
Accepted(st) == st.g = "done"
=============================================================================
