------------------------------- MODULE Lexer --------------------------------
(* The scanner as an automaton over characters. The input is a sequence of    *)
(* strings: an ASCII character is itself, any other character (or a byte that *)
(* is not part of valid UTF-8) is the string of its bytes, each represented   *)
(* by one character outside of ASCII. So Len(c) is the width of c in bytes.   *)
(*                                                                            *)
(* A token is [k, v, pos, line, col, end, b, e]: kind, decoded text, byte     *)
(* offset, line, column, end offset (exclusive), and the range b..e of input  *)
(* characters it covers. White space and comments are tokens, too.            *)
EXTENDS Text, SequencesExt

Keywords == {"ACTION","AUTO_INCREMENT","AVG_ROW_LENGTH","BIGINT","BINARY","BIT","BLOB","BOOL","BOOLEAN","BTREE",
  "CASCADE","CHAR","CHARACTER","CHARSET","CHECK","CHECKSUM","COLLATE","COMMENT","COMPACT","COMPRESSED",
  "CONNECTION","CONSTRAINT","CREATE","CURRENT_TIMESTAMP","DATA","DATABASE","DATE","DATETIME","DECIMAL",
  "DEFAULT","DELAY_KEY_WRITE","DELETE","DIRECTORY","DISK","DOUBLE","DROP","DYNAMIC","ENGINE","ENUM","EXISTS",
  "FALSE","FIRST","FIXED","FLOAT","FOREIGN","FULL","FULLTEXT","GEOMETRY","HASH","IF","INDEX","INSERT_METHOD",
  "INT","INTEGER","JSON","KEY","KEY_BLOCK_SIZE","LAST","LIKE","LONGBLOB","LONGTEXT","MATCH","MAX_ROWS",
  "MEDIUMBLOB","MEDIUMINT","MEDIUMTEXT","MEMORY","MIN_ROWS","NO","NOT","NULL","NUMERIC","ON","PACK_KEYS",
  "PARTIAL","PARSER","PASSWORD","PRIMARY","REAL","REDUNDANT","REFERENCES","RESTRICT","ROW_FORMAT","SET",
  "SIMPLE","SMALLINT","SPATIAL","STATS_AUTO_RECALC","STATS_PERSISTENT","STATS_SAMPLE_PAGES","STORAGE",
  "TABLE","TABLESPACE","TEMPORARY","TEXT","TIME","TIMESTAMP","TINYBLOB","TINYINT","TINYTEXT","TRUE","UNION",
  "UNIQUE","UNSIGNED","UPDATE","USE","USING","VARBINARY","VARCHAR","YEAR","WITH","ZEROFILL","ASC","DESC","NOW"}

Spaces    == {" ", "\n", "\t", "\r"}
WordChars == Letters \cup Digits \cup {"_"}
Quotes    == {"'", "\"", "`"}
QuoteKind(q) == CASE q = "'" -> "SINGLE_QUOTE_IDENT" [] q = "\"" -> "DOUBLE_QUOTE_IDENT" [] q = "`" -> "BACKTICK_IDENT"

Single == [ c \in {"(", ")", ";", ",", "="} |->
            CASE c = "(" -> "LPAREN" [] c = ")" -> "RPAREN" [] c = ";" -> "SEMICOLON"
              [] c = "," -> "COMMA" [] c = "=" -> "EQUAL" ]

(* m: what is being read; q: the quote; v: decoded text so far; the token     *)
(* began at offset pos, line, col, character b. at, cl, cc, i: the next       *)
(* character's offset, line, column and number.                               *)
LexStart ==
  [m |-> "", q |-> "", v |-> "", pos |-> 0, line |-> 1, col |-> 1, b |-> 1,
   at |-> 0, cl |-> 1, cc |-> 1, i |-> 1, toks |-> << >>]

Kind(s) ==
  CASE s.m = "space" -> "SPACE"
    [] s.m = "word"  -> LET u == Upper(s.v) IN IF u \in Keywords THEN u ELSE "IDENT"
    [] s.m \in {"int", "frac", "exp", "expdigits"} -> "NUMBER"
    [] s.m = "closed" -> QuoteKind(s.q)
    [] s.m = "comment" -> "COMMENT_IDENT"
    [] s.m = "slash" -> "SLASH"
    [] s.m \in {"dash", "dashes"} -> "DASH"
    [] s.m = "plus" -> "PLUS"
    [] s.m = "dot" -> "DOT"
    [] s.m = "toeol" -> "COMMENT_IDENT"
    [] s.m \in {"quoted", "escaped", "block", "blockstar"} -> "UNTERM"
    [] OTHER -> s.m

(* The token that has been read ends before the next character *)
Flush(s) ==
  IF s.m = "" THEN s
  ELSE [s EXCEPT !.toks = Append(@, [k |-> Kind(s), v |-> s.v, pos |-> s.pos, line |-> s.line, col |-> s.col,
                                     end |-> s.at, b |-> s.b, e |-> s.i - 1]),
                 !.m = ""]

(* Consume a character *)
Eat(s, c) == [s EXCEPT !.at = @ + Len(c), !.i = @ + 1,
                       !.cl = IF c = "\n" THEN @ + 1 ELSE @, !.cc = IF c = "\n" THEN 0 ELSE @ + 1]
More(s, c, m)  == [Eat(s, c) EXCEPT !.m = m]
MoreV(s, c, m) == [Eat(s, c) EXCEPT !.m = m, !.v = s.v \o c]

(* c is the first character of a token *)
Begin(s0, c) ==
  LET s == [s0 EXCEPT !.pos = s0.at, !.line = s0.cl, !.col = s0.cc, !.b = s0.i, !.v = ""] IN
  CASE c \in Spaces  -> More(s, c, "space")
    [] c \in Letters -> MoreV(s, c, "word")
    [] c \in Digits  -> MoreV(s, c, "int")
    [] c \in Quotes  -> [More(s, c, "quoted") EXCEPT !.q = c]
    [] c = "/" -> MoreV(s, c, "slash")
    [] c = "-" -> MoreV(s, c, "dash")
    [] c = "+" -> MoreV(s, c, "plus")
    [] c = "." -> MoreV(s, c, "dot")
    [] c = "#" -> More(s, c, "toeol")
    [] c \in DOMAIN Single -> MoreV(s, c, Single[c])
    [] OTHER -> MoreV(s, c, "ILLEGAL")

Feed(s, c) ==
  CASE s.m = "space" /\ c \in Spaces -> More(s, c, "space")
    [] s.m = "word" /\ c \in WordChars -> MoreV(s, c, "word")
    \* numbers: digits [ . digits ] [ E [-] digits ]
    [] s.m \in {"int", "frac", "expdigits"} /\ c \in Digits -> MoreV(s, c, s.m)
    [] s.m = "int" /\ c = "." -> MoreV(s, c, "frac")
    [] s.m \in {"int", "frac"} /\ c \in {"e", "E"} -> MoreV(s, c, "exp")
    [] s.m = "exp" /\ (c = "-" \/ c \in Digits) -> MoreV(s, c, "expdigits")
    [] s.m \in {"plus", "dash", "dot"} /\ c \in Digits -> MoreV(s, c, "int")
    \* quotes: a doubled quote is one quote; a backslash escapes the next
    \* character, except in backquotes, and goes away if that is a quote
    [] s.m = "quoted" /\ c = s.q -> More(s, c, "closed")
    [] s.m = "quoted" /\ c = "\\" /\ s.q # "`" -> More(s, c, "escaped")
    [] s.m = "quoted" -> MoreV(s, c, "quoted")
    [] s.m = "escaped" -> [Eat(s, c) EXCEPT !.m = "quoted",
                             !.v = IF c \in {"'", "\""} THEN @ \o c ELSE @ \o "\\" \o c]
    [] s.m = "closed" /\ c = s.q -> MoreV(s, c, "quoted")
    \* comments
    [] s.m = "slash" /\ c = "*" -> [More(s, c, "block") EXCEPT !.v = ""]
    [] s.m = "block" -> More(s, c, IF c = "*" THEN "blockstar" ELSE "block")
    [] s.m = "blockstar" -> More(s, c, IF c = "/" THEN "comment" ELSE IF c = "*" THEN "blockstar" ELSE "block")
    [] s.m = "dash" /\ c = "-" -> MoreV(s, c, "dashes")
    [] s.m = "dashes" /\ c \in Spaces -> [More(s, c, IF c = "\n" THEN "comment" ELSE "toeol") EXCEPT !.v = ""]
    [] s.m = "toeol" -> More(s, c, IF c = "\n" THEN "comment" ELSE "toeol")
    [] OTHER -> Begin(Flush(s), c)

Finish(s) ==
  LET f == Flush(s) IN
  Append(f.toks, [k |-> "EOF", v |-> "", pos |-> f.at, line |-> f.cl, col |-> f.cc, end |-> f.at, b |-> f.i, e |-> f.i - 1])

Lex(input) == Finish(FoldLeft(LAMBDA s, c : Feed(s, c), LexStart, input))

Insignificant == {"SPACE", "COMMENT_IDENT"}
Significant(toks) == SelectSeq(toks, LAMBDA t : t.k \notin Insignificant)
Tokens(input) == Significant(Lex(input))

(* The text of characters b..e of the input *)
Slice(input, b, e) == FoldLeft(LAMBDA a, c : a \o c, "", SubSeq(input, b, e))
=============================================================================
